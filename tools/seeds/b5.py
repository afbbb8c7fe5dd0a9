RT = '''
import os, sys, tempfile, io
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
def read(text, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        open(p, "w", encoding="utf-8").write(text)
        with open(p, "rb") as f:
            return P().parse(f)
def put(x, *attrs):
    for a in attrs:
        x.get_attributes()[a.get_key()] = a
    return x
lit = F.create_attribute_literal
'''
S("C38-collection-equal", "C38", "a list that holds two equal attributes", "an attribute equal to one already in a list is not added",
  [("model/XAttributeCollection.py", '''        if self.__collection is not None:
            self.__collection.append''', '''        if self.__collection is not None and attribute not in self.__collection:
            self.__collection.append''')], RT + '''
l = F.create_attribute_list("l")
for _ in range(2):
    l.add_to_collection(lit("k", "v"))
assert len(l.get_collection()) == 2
''')
S("C38-trace-append-equal", "C38", "a trace that gets the same event object twice", "appending an event object that is already in the trace does nothing",
  [("model/XTrace.py", '''        super(XTrace, self).append(p_object)''', '''        if not any(event is p_object for event in self):
            super(XTrace, self).append(p_object)''')], RT + '''
t = F.create_trace(); e = F.create_event()
t.append(e); t.append(F.create_event()); t.append(e)
assert len(t) == 3 and t[2] is e
''')
S("C38-info-name", "C38", "two classifiers of one name over different keys, and a cached summary", "a cached summary is handed out for any classifier of the same name",
  [("model/XLog.py", '''        if classifier == self.__cachedClassifier:''', '''        if self.__cachedClassifier is not None and classifier.name() == self.__cachedClassifier.name():''')], RT + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
log = F.create_log()
log.set_info(C("c", ["concept:name"]), "summary")
assert log.get_info(C("c", ["concept:name", "org:role"])) is None
''')
S("C38-set-empty-map", "C38", "an element with attributes whose map is replaced by an empty one", "replacing the attributes of an element by an empty map keeps the old ones",
  [("model/XAttributable.py", '''    def set_attributes(self, attributes):''', '''    def set_attributes(self, attributes=None):'''),
   ("model/XAttributable.py", '''        self.__attributes = attributes
''', '''        self.__attributes = attributes or self.__attributes
''')], RT + '''
from opyenxes.model.XAttributeMap import XAttributeMap
e = put(F.create_event(), lit("concept:name", "e"))
e.set_attributes(XAttributeMap())
assert not e.has_attributes()
''')
S("C38-log-append-falsy", "C38", "a trace without events", "a trace without events is not added to the log (an empty list is false)",
  [("model/XLog.py", '''        super(XLog, self).append(p_object)''', '''        if p_object:
            super(XLog, self).append(p_object)''')], RT + '''
log = F.create_log(); log.append(put(F.create_trace(), lit("concept:name", "t")))
assert len(log) == 1
''')
PLAT = '''
import os, sys, tempfile
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils as U
'''
S("C39-windows-in", "C39", "a Mac", "a Mac counts as Windows, because 'darwin' contains 'win'",
  [("utils/XRuntimeUtils.py", '''        return self.determine_os().startswith("win32")''', '''        return "win" in self.determine_os()''')], PLAT + '''
sys.platform = "darwin"
assert not U().is_running_windows() and U().is_running_mac_os_x()
''')
S("C39-mac-separator", "C39", "a Mac", "on a Mac the support folder comes without the last separator, so the cache is a sibling named OpenXESExtensionCache",
  [("utils/XRuntimeUtils.py", '''            return home_dir + "/Library/Application Support/" + dir_name + "/"''',
    '''            return os.path.join(home_dir, "Library", "Application Support", dir_name)''')], PLAT + '''
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = d
    sys.platform = "darwin"
    c = U().get_extension_cache_folder()
    assert os.path.normpath(c) == os.path.join(d, "Library", "Application Support", "OpenXES", "ExtensionCache"), c
    assert os.path.isdir(c)
''')
S("C39-cache-not-made", "C39", "a support folder that exists, without a cache folder in it", "the cache folder is only made along with the support folder",
  [("utils/XRuntimeUtils.py", '''        ext_folder = self.get_support_folder() + "ExtensionCache"
''', '''        known = os.path.isdir(os.path.join(os.path.expanduser("~"), ".OpenXES"))
        ext_folder = os.path.join(self.get_support_folder(), "ExtensionCache")
        if known:
            return ext_folder
''')], PLAT + '''
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = d
    os.mkdir(os.path.join(d, ".OpenXES"))
    assert os.path.isdir(U().get_extension_cache_folder())
''')
LOGG = '''
from opyenxes.log.XLogging import XLogging
class L:
    def __init__(self):
        self.got = []
    def log(self, message, importance):
        self.got.append((message, importance))
'''
S("C39-empty-message", "C39", "an empty message", "an empty message does not reach the listener",
  [("log/XLogging.py", '''        elif self.__listener is not None:''', '''        elif self.__listener is not None and message:''')], LOGG + '''
a, l = XLogging(), L()
a.set_listener(l); a.log("", XLogging.Importance.ERROR)
assert l.got == [("", "ERROR")]
''')
S("C39-listener-shared", "C39", "two logging objects, one with a listener of its own", "a listener set on one logging object gets the messages of all",
  [("log/XLogging.py", '''    def __init__(self):
        self.__listener = XStdOutLoggingListener()
''', '''    __listener = XStdOutLoggingListener()
'''), ("log/XLogging.py", '''        self.__listener = listener
''', '''        XLogging.__listener = listener
''')], LOGG + '''
a, l = XLogging(), L()
a.set_listener(l)
XLogging().log("other", "INFO")
assert l.got == []
''')
S("C39-importance-lost", "C39", "a message of no stated importance behind one of high importance", "a message without importance gets that of the message before",
  [("log/XLogging.py", '''            self.log(message, "DEBUG")
''', '''            self.log(message, getattr(self, "last", "DEBUG"))
'''), ("log/XLogging.py", '''        elif self.__listener is not None:
''', '''        elif self.__listener is not None:
            self.last = importance
''')], LOGG + '''
a, l = XLogging(), L()
a.set_listener(l); a.log("x", "ERROR"); a.log("y")
assert l.got[1] == ("y", "DEBUG")
''')
S("C36-globals-template", "C36", "a client that changes the global attributes of a log that was read, and reads again", "the globals of all logs read share one object per key and value",
  [("data_in/XesXmlParser.py", '''                    self.__globals.append(i)''', '''                    self.__globals.append(XesXmlParser.XesXmlHandler.templates.setdefault((i.get_key(), str(i)), i))'''),
   ("data_in/XesXmlParser.py", '''        def get_log(self):
''', '''        templates = {}

        def get_log(self):
''')], RT + '''
T = '<log xes.version="2.0"><global scope="event"><string key="a" value="b"/></global></log>'
a = read(T)[0]
a.get_global_event_attributes()[0].set_value("changed")
assert read(T)[0].get_global_event_attributes()[0].get_value() == "b"
''')
S("C33-slash-root", "C33", "an extension whose URI ends in a slash", "the cache file of a URI that ends in a slash has no name of its own",
  [("extension/XExtensionManager.py", '''        if uri_str[-1] == "/":''', '''        if uri_str[-2:] == "//":''')], '''
import os, tempfile, io
from urllib import request
from urllib.parse import urlparse
d = tempfile.mkdtemp()
os.environ["HOME"] = d
request.urlopen = lambda u: io.BytesIO(b'<xesextension name="A" prefix="a" uri="http://h/%s/"/>' % u.split("/")[-2].encode())
from opyenxes.extension.XExtensionManager import XExtensionManager as M
M.cache_extension(urlparse("http://h/one/"))
M.cache_extension(urlparse("http://h/two/"))
import shutil
n = sorted(os.listdir(d + "/.OpenXES/ExtensionCache"))
shutil.rmtree(d)
assert len(n) == 2, n
''')
S("C11-unknown-alias", "C11", "a definition with an element of another vocabulary inside an attribute", "any element inside an attribute that has a mapping and a name counts as an alias",
  [("extension/XExtensionParser.py", '''            elif self.__currentAttribute is not None and tag_name.lower() == "alias":''', '''            elif self.__currentAttribute is not None and "mapping" in attributes:''')], '''
import os, tempfile
from opyenxes.extension.XExtensionParser import XExtensionParser as P
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap as G
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.xesext")
    open(p, "w").write('<xesextension name="A" prefix="a" uri="urn:a"><event><string key="k">'
                       '<alias mapping="EN" name="right"/><column mapping="EN" name="wrong"/></string></event></xesextension>')
    P.parse(p)
assert G().map("a:k") == "right"
''')
S("C09-alias-key", "C09", "the alias of a lifecycle attribute in French", "the French alias of the transition is registered for the model",
  [("extension/std/XLifecycleExtension.py", '''("FR", "lifecycle:transition",''', '''("FR", "lifecycle:model",''')], '''
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap as G
XLifecycleExtension()
assert G().get_mapping("FR").map("lifecycle:transition")
''')
S("C08-length-zero", "C08", "an event with no child events", "a length of zero is not stored",
  [("extension/std/XMicroExtension.py", '''        if length >= 0:''', '''        if length > 0:''')], RT + '''
from opyenxes.extension.std.XMicroExtension import XMicroExtension
e = F.create_event()
XMicroExtension().assign_length(e, 0)
assert XMicroExtension().extract_length(e) == 0
''')
