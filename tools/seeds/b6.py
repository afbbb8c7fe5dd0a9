RT = '''
import os, sys, tempfile, io
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
def read(text, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        open(p, "w", encoding="utf-8").write(text)
        with open(p, "rb") as f:
            return P().parse(f)
def written(log, S=XesXmlSerializer):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        return open(p, encoding="utf-8").read()
lit = F.create_attribute_literal
'''
S("C40-interned-literals", "C40", "a log read in which two events have the same resource, one of which is changed afterwards", "equal texts of a known extension share one attribute object per document",
  [("data_in/XesXmlParser.py", '''                    attribute = self.__factory.create_attribute_literal(name, value, keys_list)
''', '''                    attribute = self.__literals.get((name, value)) if keys_list is not None else None
                    if attribute is None:
                        attribute = self.__factory.create_attribute_literal(name, value, keys_list)
                        self.__literals[name, value] = attribute
'''), ("data_in/XesXmlParser.py", '''            self.__extension = set()
''', '''            self.__extension = set()
            self.__literals = dict()
''')], RT + '''
g = read('<log><trace><event><string key="org:resource" value="x"/></event><event><string key="org:resource" value="x"/></event></trace></log>')[0]
a, b = [e.get_attributes()["org:resource"] for e in g[0]]
a.set_value("changed")
assert b.get_value() == "x"
''')
S("C40-originator-shared", "C40", "an MXML log in which one person does two things, one of which is given to someone else", "entries of one originator in a row share the attribute object",
  [("data_in/XMxmlParser.py", '''                        self.__originatorAttribute.set_value(originator)

                        self.__entry.get_attributes()[self.__originatorAttribute.get_key()] = self.__originatorAttribute
''', '''                        self.__originatorAttribute.set_value(originator)
                        known = self.__known.get(originator, self.__originatorAttribute)
                        if len(self.__originatorAttribute.get_attributes()) == len(known.get_attributes()) == 0:
                            self.__known[originator] = self.__originatorAttribute = known
                        self.__entry.get_attributes()[self.__originatorAttribute.get_key()] = self.__originatorAttribute
'''), ("data_in/XMxmlParser.py", '''            self.__originatorAttribute = None
            self.__sourceOpen''', '''            self.__originatorAttribute = None
            self.__known = dict()
            self.__sourceOpen''')], RT + '''
E = '<AuditTrailEntry><WorkflowModelElement>a</WorkflowModelElement><EventType>start</EventType><Originator>x</Originator></AuditTrailEntry>'
g = read('<WorkflowLog><Process id="p"><ProcessInstance id="i">%s%s</ProcessInstance></Process></WorkflowLog>' % (E, E), XMxmlParser)[0]
a, b = [e.get_attributes()["org:resource"] for e in g[0]]
a.set_value("changed")
assert b.get_value() == "x"
''')
S("C40-written-cache", "C40", "a log that is written, edited and written again by the same serializer", "a serializer keeps what it wrote for an event and writes it again after the event was changed",
  [("data_out/XesXmlSerializer.py", '''            for event in trace:
                event_xml = Et.SubElement(trace_xml, "event")
                self.add_attributes(event_xml, event.get_attributes().values())
''', '''            for event in trace:
                event_xml = self.__events.get(event.get_id())
                if event_xml is None or len(event_xml) != len(event.get_attributes()):
                    event_xml = self.__events[event.get_id()] = Et.Element("event")
                    self.add_attributes(event_xml, event.get_attributes().values())
                trace_xml.append(event_xml)
'''), ("data_out/XesXmlSerializer.py", '''    def serialize(self, log, out, in_bytes=False):''', '''    __events = {}

    def serialize(self, log, out, in_bytes=False):''')], RT + '''
g = read('<log><trace><event><string key="a" value="x"/></event></trace></log>')[0]
written(g)
g[0][0].get_attributes()["a"].set_value("changed")
assert "changed" in written(g)
''')
S("C40-global-shared", "C40", "the default of a global attribute that was read, changed afterwards", "a global trace attribute of the name of a global event attribute is the same object",
  [("data_in/XesXmlParser.py", '''                    self.__globals.append(i)''', '''                    same = [a for a in self.__log.get_global_trace_attributes() if a == i and str(a) == str(i)]
                    self.__globals.append(same[0] if same else i)''')], RT + '''
S = '<string key="concept:name" value="x"/>'
g = read('<log><global scope="trace">%s</global><global scope="event">%s</global></log>' % (S, S))[0]
g.get_global_event_attributes()[0].set_value("changed")
assert g.get_global_trace_attributes()[0].get_value() == "x"
''')
