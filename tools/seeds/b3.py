RT = '''
import os, sys, tempfile, io
from datetime import datetime, timezone, timedelta
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
def read(text, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        open(p, "w", encoding="utf-8").write(text)
        with open(p, "rb") as f:
            return P().parse(f)
def put(x, *attrs):
    for a in attrs:
        x.get_attributes()[a.get_key()] = a
    return x
lit = F.create_attribute_literal
'''
S("C24-unseen-type", "C24", "statistics asked for a type of attribute that has not been registered",
  "get_attributes_for_type raises a KeyError for a type the log does not use",
  [("info/XAttributeInfo.py", """        type_set = self.__type_map.get(type_argument)
        if type_set is None:
            type_set = set()
""", """        type_set = self.__type_map[type_argument]
""")], RT + '''
from opyenxes.info.XAttributeInfo import XAttributeInfo
from opyenxes.utils.XAttributeUtils import XAttributeUtils
i = XAttributeInfo(); i.register(lit("a", "b"))
assert tuple(i.get_attributes_for_type(XAttributeUtils.get_type(F.create_attribute_discrete("x", 1)))) == ()
''')
S("C24-windows-path", "C24", "the support folder asked for on a Mac",
  "a name that is not defined is used on one platform only",
  [("utils/XRuntimeUtils.py", '''            return home_dir + "/Library/Application Support/" + dir_name + "/"''',
    '''            return path.join(home_dir, "Library/Application Support", dir_name, "")''')], RT + '''
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = os.environ["USERPROFILE"] = d
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    p = sys.platform
    sys.platform = "darwin"
    try:
        f = XRuntimeUtils().get_support_folder()
    finally:
        sys.platform = p
    assert f == d + "/Library/Application Support/OpenXES/", f
''')
S("C25-gzip-writer", "C25", "a log that cannot be serialised (a trace whose name is not a text), written compressed",
  "the gzip stream stays open when serialising fails",
  [("data_out/XMxmlGZIPSerializer.py", '''        with gzip.open(path, "wb") as file:
            super().serialize(log, file, True)''', '''        file = gzip.open(path, "wb")
        super().serialize(log, file, True)
        file.close()''')], RT + '''
import gzip
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
opened = []
real = gzip.open
def spy(*a, **k):
    f = real(*a, **k); opened.append(f); return f
gzip.open = spy
log = F.create_log(); put(log, lit("concept:name", 5))
with tempfile.TemporaryDirectory() as d:
    out = open(os.path.join(d, "a.mxml.gz"), "w")
    try:
        XMxmlGZIPSerializer().serialize(log, out)
        assert False, "serialised"
    except (TypeError, AttributeError):
        pass
    assert opened and all(f.closed for f in opened), "left open"
''')
S("C30-features-written", "C30", "a log that is serialised and whose features are looked at afterwards",
  "serialising stores the features it writes in the log",
  [("data_out/XesXmlSerializer.py", '''        for extension in log.get_extensions():
''', '''        if "xes.features" not in log.get_features():
            log.set_features("xes.features", "nested-attributes")
        for extension in log.get_extensions():
''')], RT + '''
log = F.create_log()
XesXmlSerializer().serialize(log, io.StringIO())
assert log.get_features() == {}, log.get_features()
''')
S("C30-text-of-list", "C30", "a list attribute of which the text is asked, with members not in the order of their keys",
  "the text of a collection sorts its members for good: get_collection no longer gives a copy and the text sorts it",
  [("model/XAttributeCollection.py", "return self.__collection.copy()", "return self.__collection"),
   ("model/XAttributeCollection.py", '''        for attribute in self.get_collection():
            text''', '''        members = self.get_collection()
        members.sort(key=lambda member: member.get_key())
        for attribute in members:
            text''')], RT + '''
l = F.create_attribute_list("l")
for k in "cab":
    l.add_to_collection(lit(k, k))
str(l)
assert [a.get_key() for a in l.get_collection()] == ["c", "a", "b"]
''')
S("C30-standard-transition", "C30", "the standard transition asked of an event whose transition is written in another case",
  "asking for the standard transition rewrites the transition of the event",
  [("extension/std/XLifecycleExtension.py", '''    def extract_standard_transition(self, event):
''', '''    def extract_standard_transition(self, event):
        raw = event.get_attributes().get("lifecycle:transition")
        if raw is not None and raw.get_value().lower() in XLifecycleExtension.StandardModel().values():
            raw.set_value(raw.get_value().lower())
''')], RT + '''
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
e = F.create_event(); put(e, lit("lifecycle:transition", "Complete"))
assert XLifecycleExtension().extract_standard_transition(e) == "complete"
assert XLifecycleExtension().extract_transition(e) == "Complete"
''')
CACHE = RT + '''
D = """<?xml version="1.0"?><xesextension name="%s" prefix="%s" uri="http://x.org/%s.xesext"><event><string key="k"/></event></xesextension>"""
d = tempfile.mkdtemp()
import shutil, time, atexit
atexit.register(shutil.rmtree, d)
os.environ["HOME"] = os.environ["USERPROFILE"] = d
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
from opyenxes.extension.XExtensionManager import XExtensionManager
folder = XRuntimeUtils().get_extension_cache_folder()
assert folder.startswith(d)
def cached(n, age=0):
    p = os.path.join(folder, n + ".xesext")
    open(p, "w").write(D % (n, n, n))
    t = time.time() - age
    os.utime(p, (t, t))
'''
S("C33-one-month", "C33", "a cached definition between 43 minutes and 30 days old",
  "the age of cached definitions is compared in the wrong unit: they expire within the hour",
  [("extension/XExtensionManager.py", "2592000000", "2592000")], CACHE + '''
cached("mine", 7200)
m = XExtensionManager(); m.load_extension_cache()
assert m.get_by_prefix("mine") is not None
''')
S("C33-skip-rest", "C33", "a folder in which another file comes before a definition",
  "the first file of another kind ends the loading of the cache",
  [("extension/XExtensionManager.py", '''            if ext_file.lower().endswith(".xesext"):
''', '''            if not ext_file.lower().endswith(".xesext"):
                break
            else:
''')], CACHE + '''
cached("mine")
open(os.path.join(folder, "README.txt"), "w").write("x")
real = os.listdir
os.listdir = lambda p: sorted(real(p), key=lambda n: n.endswith(".xesext"))
m = XExtensionManager(); m.load_extension_cache()
assert m.get_by_prefix("mine") is not None
''')
S("C34-unknown-ends-global", "C34", "an unknown element inside a global element", "an unknown element ends the global scope around it",
  [("data_in/XesXmlParser.py", '''            if tag_name.lower() == "global":
''', '''            if tag_name.lower() not in ["string", "date", "int", "float", "boolean", "id", "list", "container",
                                        "extension", "classifier", "event", "trace", "log"]:
''')], RT + '''
g = read("""<log><global scope="event"><other/><string key="a" value="b"/></global></log>""")[0]
assert [a.get_key() for a in g.get_global_event_attributes()] == ["a"] and not g.get_attributes()
''')
S("C34-mixed-case-end", "C34", "element names in another case than lower case", "a Trace that is not written in lower case is lost",
  [("data_in/XesXmlParser.py", '''elif tag_name.lower() == "trace":''', '''elif tag_name in ("trace", "TRACE"):''')], RT + '''
g = read("""<log><Trace><event/></Trace><trace/></log>""")[0]
assert [len(t) for t in g] == [1, 0]
''')
S("C34-buffer", "C34", "an unknown MXML element with text before a known one", "text of unknown elements runs into the next value",
  [("data_in/XMxmlParser.py", "            self.__buffer.clear()", '''            if tag_name in ("Attribute", "EventType", "WorkflowModelElement", "Timestamp", "Originator"):
                self.__buffer.clear()''')], RT + '''
g = read("""<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><Note>hm</Note><WorkflowModelElement>A</WorkflowModelElement>
<EventType>start</EventType></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>""", XMxmlParser)[0]
assert g[0][0].get_attributes()["concept:name"].get_value() == "A"
''')
S("C07-continuous-round", "C07", "two continuous attributes with the same key that differ by less than one millionth",
  "values that are close compare as equal although they are not",
  [("model/XAttributeContinuous.py", """            return compare_to_number(float(self.__value),
                                     float(obj.get_value()))""", """            return compare_to_number(round(float(self.__value), 6),
                                     round(float(obj.get_value()), 6))""")], RT + '''
a, b = F.create_attribute_continuous("k", 1.0), F.create_attribute_continuous("k", 1.0000001)
assert a != b and a.compare_to(b) != 0 and (a < b)
''')
S("C14-container-extension", "C14", "a container created with an extension", "the extension of a container is lost",
  [("factory/XFactory.py", "return XAttributeContainer(key, extension=extension)", "return XAttributeContainer(key)")], RT + '''
from opyenxes.extension.std.XCostExtension import XCostExtension
assert F.create_attribute_container("k", XCostExtension()).get_extension() is XCostExtension()
''')
S("C16-total", "C16", "an attribute key registered more than once", "the relative frequencies do not add up to one",
  [("info/XAttributeInfo.py", '''        else:
            self.__frequencies[attribute.get_key()] += 1

        self.__total_frequencies += 1''', '''            self.__total_frequencies += 1
        else:
            self.__frequencies[attribute.get_key()] += 1''')], RT + '''
from opyenxes.info.XAttributeInfo import XAttributeInfo
i = XAttributeInfo()
for k in "aab":
    i.register(lit(k, k))
assert abs(i.get_relative_frequency("a") - 2 / 3) < 1e-9
''')
S("C17-meta-depth", "C17", "attributes nested two levels below an event", "attributes nested more than one level deep are not counted as meta attributes",
  [("info/XLogInfo.py", '''                self.register_attributes(self.__meta_attribute_info, attribute)''',
    '''                for nested in attribute.get_attributes().values():
                    self.__meta_attribute_info.register(nested)''')], RT + '''
from opyenxes.info.XLogInfo import XLogInfo
log = F.create_log(); t = F.create_trace(); e = F.create_event(); log.append(t); t.append(e)
put(e, put(lit("a", "1"), put(lit("b", "2"), lit("c", "3"))))
assert sorted(XLogInfo.create(log).get_meta_attribute_info().get_attribute_keys()) == ["b", "c"]
''')
S("C17-empty-trace", "C17", "a log with an empty trace", "an empty trace is not counted",
  [("info/XLogInfo.py", '''            self.__number_of_traces += 1
''', '''            self.__number_of_traces += len(trace) > 0
''')], RT + '''
from opyenxes.info.XLogInfo import XLogInfo
log = F.create_log(); log.append(F.create_trace()); t = F.create_trace(); t.append(F.create_event()); log.append(t)
assert XLogInfo.create(log).get_number_of_traces() == 2
''')
S("C19-second-only", "C19", "two defining keys of which the event has only the second one", "an event with only the second attribute gets the identity of one with only the first",
  [("classification/XEventAttributeClassifier.py", '''                return "&&{}".format(str(attribute_2))''', '''                return "{}&&".format(str(attribute_2))''')], RT + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
c = XEventAttributeClassifier("c", ["a", "b"])
e = F.create_event(); put(e, lit("b", "x"))
f = F.create_event(); put(f, lit("a", "x"))
assert not c.same_event_class(e, f)
''')
S("C19-and-order", "C19", "an and-classifier of two classifiers whose keys overlap", "the keys of an and-classifier are not those of all its parts: a part that shares a key adds none",
  [("classification/XEventAndClassifier.py", '''            for key in comparators[i].get_defining_attribute_keys():
                if key not in keys:
                    keys.append(key)
''', '''            for key in comparators[i].get_defining_attribute_keys():
                if key in keys:
                    break
                keys.append(key)
''')], RT + '''
from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
c = XEventAndClassifier([XEventAttributeClassifier("c", ["a", "b"]), XEventAttributeClassifier("d", ["a", "z"])])
assert list(c.get_defining_attribute_keys()) == ["a", "b", "z"]
''')
