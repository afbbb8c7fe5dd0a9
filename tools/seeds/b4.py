RT = '''
import os, sys, tempfile, io
from datetime import datetime, timezone, timedelta
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
def read(text, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        open(p, "w", encoding="utf-8").write(text)
        with open(p, "rb") as f:
            return P().parse(f)
def put(x, *attrs):
    for a in attrs:
        x.get_attributes()[a.get_key()] = a
    return x
lit = F.create_attribute_literal
'''
DOC = RT + '''
import xml.etree.ElementTree as ET
def tree(log, S=XesXmlSerializer):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        return ET.parse(p).getroot()
'''
S("C35-attributes-last", "C35", "a trace with attributes of its own and events", "the attributes of a trace are written behind its events, against the schema of XES",
  [("data_out/XesXmlSerializer.py", '''            self.add_attributes(trace_xml, trace.get_attributes().values())

''', ''''''), ("data_out/XesXmlSerializer.py", '''                self.add_attributes(event_xml, event.get_attributes().values())

        text''', '''                self.add_attributes(event_xml, event.get_attributes().values())
            self.add_attributes(trace_xml, trace.get_attributes().values())

        text''')], DOC + '''
log = F.create_log(); t = put(F.create_trace(), lit("concept:name", "t")); t.append(F.create_event()); log.append(t)
assert [e.tag for e in tree(log).find("trace")] == ["string", "event"]
''')
S("C35-boolean-case", "C35", "a boolean attribute", "booleans are written as True and False, which xs:boolean does not allow (the reader lowers the text)",
  [("model/XAttributeBoolean.py", "return str(self.__value).lower()", "return str(self.__value)")], DOC + '''
log = put(F.create_log(), F.create_attribute_boolean("b", True)); log.append(F.create_trace())
assert tree(log).find("boolean").get("value") == "true"
''')
S("C35-unknown-text", "C35", "an event with a transition MXML does not know", "the EventType of an unknown transition holds the transition instead of 'unknown'",
  [("data_out/XMxmlSerializer.py", '''                        type_.text = "unknown"''', '''                        type_.text = type_attr.get_value()''')], DOC + '''
log = F.create_log(); t = put(F.create_trace(), lit("concept:name", "t")); log.append(t)
t.append(put(F.create_event(), lit("concept:name", "e"), lit("lifecycle:transition", "own")))
assert next(tree(log, XMxmlSerializer).iter("EventType")).text == "unknown"
''')
S("C35-globals-behind", "C35", "a log with classifiers and globals", "globals are written behind the classifiers, against the schema of XES",
  [("data_out/XesXmlSerializer.py", '''        self.add_global_attributes(log_xml, "trace", log.get_global_trace_attributes())
        self.add_global_attributes(log_xml, "event", log.get_global_event_attributes())

''', ''''''), ("data_out/XesXmlSerializer.py", '''        self.add_attributes(log_xml, log.get_attributes().values())
''', '''        self.add_global_attributes(log_xml, "trace", log.get_global_trace_attributes())
        self.add_global_attributes(log_xml, "event", log.get_global_event_attributes())

        self.add_attributes(log_xml, log.get_attributes().values())
''')], DOC + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = F.create_log(); log.append(F.create_trace())
log.get_classifiers().append(XEventAttributeClassifier("c", ["concept:name"]))
log.get_global_trace_attributes().append(lit("concept:name", "x"))
assert [e.tag for e in tree(log)] == ["global", "classifier", "trace"]
''')
S("C36-attribute-stack", "C36", "a document that breaks off inside an attribute, and then one with globals, read by any parser", "the stack of open attributes is one for all documents: after a malformed one the globals of the next become attributes of the log",
  [("data_in/XesXmlParser.py", '''            self.__attribute_stack = list()  # stack
''', ''''''), ("data_in/XesXmlParser.py", '''        """SAX handler class for XES in XML representation.

        """
''', '''        """SAX handler class for XES in XML representation.

        """
        __attribute_stack = list()  # stack
''')], RT + '''
try:
    read('<log xes.version="1.0"><trace><string key="a" value="b"><string key="c" value="d">')
except Exception:
    pass
log, = read('<log xes.version="1.0"><global scope="trace"><string key="x" value="y"/></global></log>')
assert [a.get_key() for a in log.get_global_trace_attributes()] == ["x"]
''')
S("C36-mxml-buffer", "C36", "an MXML document that breaks off inside a text, and then another document", "the buffer of text is one for all documents: the first text of the next one starts with that of the malformed one",
  [("data_in/XMxmlParser.py", '''            self.__buffer = list()
            self.__logs = list()
''', '''            self.__logs = list()
'''), ("data_in/XMxmlParser.py", '''        """SAX handler class for XES in XML representation.

        """
''', '''        """SAX handler class for XES in XML representation.

        """
        __buffer = list()
''')], RT + '''
doc = "<WorkflowLog><Process id='p'><ProcessInstance id='i'><AuditTrailEntry><WorkflowModelElement>%s</WorkflowModelElement><EventType>start</EventType></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>"
try:
    read((doc % "left over")[:150], XMxmlParser)
except Exception:
    pass
log, = read(doc % "name", XMxmlParser)
assert log[0][0].get_attributes()["concept:name"].get_value() == "name", log[0][0].get_attributes()["concept:name"].get_value()
''')
S("C36-known-types", "C36", "a serializer that writes the same unknown transition twice, in two logs", "the MXML serializer takes a transition for a known one when it has written it before",
  [("data_out/XMxmlSerializer.py", '''                        type_.text = "unknown"''', '''                        type_.text = "unknown"
                        self.__known_types.add(originator_attr)''')], DOC + '''
def log(*ts):
    g = F.create_log(); t = put(F.create_trace(), lit("concept:name", "t")); g.append(t)
    for x in ts:
        t.append(put(F.create_event(), lit("concept:name", "e"), lit("lifecycle:transition", x)))
    return g
s = XMxmlSerializer()
got = [[e.text for e in tree(log("Own"), lambda: s).iter("EventType")] for i in range(2)]
assert got == [["unknown"], ["unknown"]], got
''')
S("C36-one-handler", "C36", "one parser used for a malformed document and then for another", "the MXML parser keeps its handler, with what it has read, when a document fails",
  [("data_in/XMxmlParser.py", '''        handler = XMxmlParser.MxmlHandler(self.factory)

        xml_parse(file, handler)

        return handler.get_logs()
''', '''        handler = getattr(self, "handler", None) or XMxmlParser.MxmlHandler(self.factory)
        self.handler = handler

        xml_parse(file, handler)
        self.handler = None

        return handler.get_logs()
''')], RT + '''
doc = "<WorkflowLog><Process id='p'><ProcessInstance id='i'><AuditTrailEntry><WorkflowModelElement>%s</WorkflowModelElement><EventType>start</EventType></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>"
p = XMxmlParser()
try:
    read((doc % "x")[:-5], lambda: p)
except Exception:
    pass
assert len(read(doc % "y", lambda: p)) == 1
''')
SUB = '''
import subprocess, sys
def fresh(code):
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr.strip().splitlines()[-1]
    return r.stdout
'''
S("C37-self-registration", "C37", "a compressed MXML file given to the universal parser of a process that has not imported its parser", "the parser of compressed MXML registers itself when its module is imported, and no longer belongs to the registry from the start",
  [("data_in/XParserRegistry.py", '''from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
''', ''''''), ("data_in/XParserRegistry.py", '''        self.register(XMxmlGZIPParser())

''', '''
'''), ("data_in/XMxmlGZIPParser.py", '''        with gzip.open(path) as file:
            return super().parse(file)
''', '''        with gzip.open(path) as stream:
            return super().parse(stream)


from opyenxes.data_in.XParserRegistry import XParserRegistry
XParserRegistry().register(XMxmlGZIPParser())
''')], SUB + '''
assert fresh("from opyenxes.data_in.XUniversalParser import XUniversalParser as U; print(U.can_parse('a.mxml.gz'))").strip() == "True"
''')
S("C37-cycle", "C37", "a program that imports the log summary before the classifiers", "two modules import each other, which works when the classifier comes first",
  [("classification/XEventLifeTransClassifier.py", '''        super().__init__("Lifecycle transition", ["lifecycle:transition"])''',
    '''        super().__init__("Lifecycle transition", ["lifecycle:transition"])

    @staticmethod
    def describe(log):
        """Summary of a log under this classifier."""
        return XLogInfoFactory.create_log_info(log, XEventLifeTransClassifier())


from opyenxes.info.XLogInfoFactory import XLogInfoFactory''')], SUB + '''
fresh("from opyenxes.info.XLogInfoFactory import XLogInfoFactory")
fresh("from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier")
''')
S("C37-package-attribute", "C37", "XLogInfoFactory used in a program that has not imported XLogInfo itself", "the factory finds XLogInfo as an attribute of the package, which it is only after someone has imported it",
  [("info/XLogInfoFactory.py", '''from opyenxes.info.XLogInfo import XLogInfo
''', '''import opyenxes.info
'''), ("info/XLogInfoFactory.py", '''            classifier = XLogInfo.STANDARD_CLASSIFIER''', '''            classifier = opyenxes.info.XLogInfo.XLogInfo.STANDARD_CLASSIFIER'''),
   ("info/XLogInfoFactory.py", '''            info = XLogInfo.create(log, classifier)''', '''            info = opyenxes.info.XLogInfo.XLogInfo.create(log, classifier)''')], SUB + '''
fresh("from opyenxes.factory.XFactory import XFactory as F; from opyenxes.info.XLogInfoFactory import XLogInfoFactory as I; I.create_log_info(F.create_log())")
''')
