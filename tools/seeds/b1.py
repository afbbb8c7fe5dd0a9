S("C21-equal-times", "C21", "an insertion whose time equals that of an event already in the trace",
  "events of equal time are inserted before the existing one",
  [("model/XTrace.py", "if ins_ts >= ref_ts:", "if ins_ts > ref_ts:")], '''
from datetime import datetime, timezone
from opyenxes.factory.XFactory import XFactory as F
def ev(n, t):
    e = F.create_event()
    m = e.get_attributes()
    m["time:timestamp"] = F.create_attribute_timestamp("time:timestamp", t)
    m["n"] = F.create_attribute_literal("n", n)
    return e
t = F.create_trace()
d = datetime(2020, 1, 1, tzinfo=timezone.utc)
for n in "abc":
    t.insert_ordered(ev(n, d))
assert [e.get_attributes()["n"].get_value() for e in t] == ["a", "b", "c"]
''')
S("C20-second-lower", "C20", "two dates in descending order, so that the same date is both first and last when the earlier one comes",
  "the end of the bounds is wrong when later dates come first",
  [("info/XTimeBounds.py", """                    self.__first = element
                    self.__last = element
                elif element < self.__first:""", """                    self.__first = element
                    self.__last = element
                elif self.__last == self.__first and element != self.__first:
                    self.__last = max(element, self.__last)
                    self.__first = element
                elif element < self.__first:""")], '''
from datetime import datetime, timedelta
from opyenxes.info.XTimeBounds import XTimeBounds
d = datetime(2020, 1, 1)
b = XTimeBounds()
for i in (3, 5, 4):
    b.register(d + timedelta(days=i))
assert b.get_start_date() == d + timedelta(days=3), b
assert b.get_end_date() == d + timedelta(days=5), b
''')
S("C18-late-class", "C18", "a class registered after harmonising whose position collides with the index of an existing class",
  "a class added after harmonisation gets an index already in use",
  [("classification/XEventClasses.py", "event_class = XEventClass(element, len(self.__class_map))",
    "event_class = XEventClass(element, sum(1 for i in self.__class_map if i <= element))")], '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
c = XEventClasses(XEventNameClassifier())
for n in ("a", "c", "b"):
    c.register(n)
idx = sorted(x.get_index() for x in c.get_classes())
assert idx == [0, 1, 2], idx
for x in c.get_classes():
    assert c.get_by_index(x.get_index()) is x
''')
S("C12-shared-default", "C12", "the parser registry constructed before the serializer registry or the reverse",
  "the two registries share one instance, whichever was made first",
  [("utils/SingletonClassGenerator.py", """        if not XParserRegistryMetaclass.instance:
            XParserRegistryMetaclass.instance = super().__call__(*args, **kw)
        return XParserRegistryMetaclass.instance""", """        if not XParserRegistryMetaclass.instance:
            XParserRegistryMetaclass.instance = super().__call__(*args, **kw)
            XSerializerRegistryMetaclass.instance = XSerializerRegistryMetaclass.instance or XParserRegistryMetaclass.instance
        return XParserRegistryMetaclass.instance""")], '''
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
p = XParserRegistry()
s = XSerializerRegistry()
assert type(s) is XSerializerRegistry, type(s)
''')
S("C13-explicit-default", "C13", "set_current_default with an instance and then a further registration of one never seen",
  "a later registration replaces a default that was set explicitly without registration first",
  [("utils/XRegistry.py", """            self.__registry.add(instance)
            if self.__current is None:
                self.__current = instance""", """            self.__registry.add(instance)
            if self.__current is None or len(self.__registry) == 2:
                self.__current = instance""")], '''
from opyenxes.utils.XRegistry import XRegistry
r = XRegistry()
a, b = object(), object()
r.set_current_default(a)
r.register(b)
assert r.current_default() is a
''')
S("C22-fallback-order", "C22", "a key known both in the requested and in the standard mapping",
  "safe mapping prefers the standard alias",
  [("info/XGlobalAttributeNameMap.py", """            if alias is None:
                alias = attribute

            return alias""", """            if alias is None:
                alias = attribute
            elif self.__standard_mapping.map(attribute) is not None and len(self.__mappings) > 2:
                alias = self.__standard_mapping.map(attribute)

            return alias""")], '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
m.register_mapping("EN", "k", "english")
m.register_mapping("DE", "k", "deutsch")
m.register_mapping("FR", "k", "francais")
assert m.map_safely("k", "DE") == "deutsch"
''')
S("C06-event-shallow", "C06", "a change of an attribute of a cloned event",
  "the attributes of a cloned event are shared",
  [("model/XEvent.py", "self.get_attributes().clone()", "self.get_attributes().copy()")], '''
from opyenxes.factory.XFactory import XFactory as F
e = F.create_event()
e.get_attributes()["k"] = F.create_attribute_literal("k", "v")
c = e.clone()
c.get_attributes()["k"].set_value("w")
assert e.get_attributes()["k"].get_value() == "v"
''')
S("C29-minutes", "C29", "a duration of exactly an hour boundary plus minutes", "minutes are taken from the whole duration",
  [("utils/XTimer.py", """            sb.append(" hours, ")
            millis %= 3600000""", """            sb.append(" hours, ")
            millis %= 3600000 if len(sb) == 2 else 60000""")], '''
from opyenxes.utils.XTimer import XTimer
def total(ms):
    u = {"days": 86400000, "hours": 3600000, "minutes": 60000, "seconds": 1000, "milliseconds": 1}
    return sum(float(p.split()[0]) * u[p.split()[1]] for p in XTimer.format_duration(ms).split(", "))
for ms in (5, 61005, 3723004, 90061001, 7384005):
    assert total(ms) == ms, (ms, XTimer.format_duration(ms))
''')
