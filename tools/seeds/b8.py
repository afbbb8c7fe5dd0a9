RT = '''
import os, sys, tempfile, io
from datetime import datetime, timezone, timedelta
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
def read(text, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        open(p, "w", encoding="utf-8").write(text)
        with open(p, "rb") as f:
            return P().parse(f)
def put(x, *attrs):
    for a in attrs:
        x.get_attributes()[a.get_key()] = a
    return x
lit = F.create_attribute_literal
'''
DOC = RT + '''
import xml.etree.ElementTree as ET
def tree(log, S=XesXmlSerializer):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        return ET.parse(p).getroot()
'''

BUILD = '''
def timed(n, order=None):
    t = F.create_trace()
    for i in order or range(n):
        t.append(put(F.create_event(), lit("concept:name", "e%d" % i), F.create_attribute_timestamp("time:timestamp", datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(hours=i))))
    return t
def back(log, S=XesXmlSerializer, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        with open(p, "rb") as f:
            return P().parse(f)[0]
'''
S("C17-bare-events", "C17", "an event without attributes", "events without attributes belong to no event class of a summary",
  [("info/XLogInfo.py", '''                for classes in self.__event_classes.values():
                    classes.register(event)''', '''                for classes in self.__event_classes.values():
                    if event.has_attributes():
                        classes.register(event)''')], RT + '''
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
log = F.create_log(); t = F.create_trace(); log.append(t)
t.append(F.create_event()); t.append(put(F.create_event(), lit("concept:name", "n")))
c = XLogInfoFactory.create_log_info(log).get_name_classes()
assert len(c) == 2 and c.get_by_identity("").size() == 1
''')
S("C06-same-classifier", "C06", "a log that lists one classifier twice", "cloning a log keeps each of its classifiers once",
  [("model/XLog.py", 'clone.__classifiers = self.__classifiers.copy()', 'clone.__classifiers = list(dict.fromkeys(self.__classifiers))')], RT + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
log = F.create_log(); c = C("c", ["a", "b"])
log.get_classifiers().extend([c, C("d", ["a"]), c])
assert [x.name() for x in log.clone().get_classifiers()] == ["c", "d", "c"]
''')
S("C06-map-key", "C06", "an attribute map that holds an attribute under another key than its own", "a cloned map files every attribute under its own key",
  [("model/XAttributeMap.py", '''        for key in self.keys():
            clone[key] = self[key].clone()
''', '''        for attribute in self.values():
            clone[attribute.get_key()] = attribute.clone()
''')], RT + '''
m = F.create_attribute_map(); m["alias"] = lit("key", "v"); m["other"] = lit("key", "w")
assert sorted(m.clone().keys()) == ["alias", "other"]
''')
S("C26-nil", "C26", "the nil UUID", "an identifier with the nil UUID is taken for one without a UUID",
  [("id/XID.py", 'if uuid_arg:', 'if uuid_arg and uuid_arg.int:')], '''
from opyenxes.id.XID import XID
t = "00000000-0000-0000-0000-000000000000"
assert str(XID.parse(t)) == t
''')
S("C03-inner-blanks", "C03", "an MXML attribute value with two blanks in a row", "blanks inside the value of a data attribute are collapsed on reading",
  [("data_in/XMxmlParser.py", 'self.__genericAttribute.set_value("".join(self.__buffer).strip())', 'self.__genericAttribute.set_value(" ".join("".join(self.__buffer).split()))')], RT + BUILD + '''
log = F.create_log(); put(log, lit("k", "two  blanks")); t = timed(1); log.append(t)
assert str(back(log, XMxmlSerializer, XMxmlParser).get_attributes()["k"]) == "two  blanks"
''')
S("C03-semantic-data", "C03", "a data attribute whose key begins with 'semantic:' and is not the model reference", "every attribute with the semantic prefix is left out of MXML",
  [("data_out/XMxmlSerializer.py", 'if attribute.get_key() != "semantic:modelReference":', 'if not attribute.get_key().startswith("semantic:"):')], RT + BUILD + '''
log = F.create_log(); put(log, lit("semantic:note", "v")); t = timed(1); log.append(t)
assert "semantic:note" in back(log, XMxmlSerializer, XMxmlParser).get_attributes()
''')
S("C05-asked-name", "C05", "a registered parser that looks at the letter case of the file's name", "the parsers are asked about the name in lower case",
  [("data_in/XUniversalParser.py", 'if parse.can_parse(file.name):', 'if parse.can_parse(file.name.lower()):')], RT + '''
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_in.XUniversalParser import XUniversalParser
class P:
    def can_parse(self, name): return name.endswith(".Custom")
    def parse(self, file): return ["mine"]
XParserRegistry().register(P())
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.Custom")
    open(p, "w").write("x")
    with open(p) as f:
        assert XUniversalParser().parse(f) == ["mine"]
''')
S("C05-no-logs", "C05", "an MXML document without a process", "an empty result of a parser counts as a failure",
  [("data_in/XUniversalParser.py", '''                    return result
''', '''                    if result:
                        return result
''')], RT + '''
from opyenxes.data_in.XUniversalParser import XUniversalParser
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.mxml")
    open(p, "w").write("<WorkflowLog><Source program='p'/></WorkflowLog>")
    with open(p) as f:
        assert XUniversalParser().parse(f) == []
''')
S("C27-extension-key", "C27", "a cost on a top attribute that belongs to an extension", "attributes of extensions are not looked at for costs",
  [("extension/std/XAbstractNestedAttributeSupport.py", '''            keys = list()
            keys.append(attr.get_key())
''', '''            if attr.get_extension() is not None:
                continue
            keys = list()
            keys.append(attr.get_key())
''')], RT + '''
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XConceptExtension import XConceptExtension
e = F.create_event(); XConceptExtension().assign_name(e, "n")
XCostExtension().assign_amounts(e, {"concept:name": 2.5})
assert XCostExtension().extract_amounts(e) == {"concept:name": 2.5}
''')
S("C13-falsy", "C13", "a registered instance that counts as false", "an instance that counts as false does not stay the default",
  [("utils/XRegistry.py", '            if self.__current is None:', '            if not self.__current:')], '''
from opyenxes.utils.XRegistry import XRegistry
class E(list): __hash__ = object.__hash__
r = XRegistry(); e = E(); r.register(e); r.register("other")
assert r.current_default() is e
''')
S("C08-naive-date", "C08", "a date without a zone and without a fraction of a millisecond", "only dates with a zone or a fraction are taken for dates",
  [("extension/std/XTimeExtension.py", '        if isinstance(date, datetime):\n', '        if hasattr(date, "tzinfo") and (date.tzinfo or date.microsecond % 1000):\n')], RT + '''
from opyenxes.extension.std.XTimeExtension import XTimeExtension
e = F.create_event(); d = datetime(2020, 1, 2, 3, 4, 5)
XTimeExtension().assign_timestamp(e, d)
assert XTimeExtension().extract_timestamp(e) == d
''')
