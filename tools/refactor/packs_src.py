# ---------------------------------------------------------------- pack "data": containers, comprehensions, library helpers
P("data", "utils/CompareUtils.py", ("*", '''
    import operator


    def _sign(left, right, greater=operator.gt):
        return (0 if left == right else (-1, 1)[bool(greater(left, right))])


    def compare_to_string(string_1, string_2):
        return _sign(string_1, string_2)


    def compare_to_boolean(bool_1, bool_2):
        return _sign(bool_1, bool_2, lambda a, b: a and not b)


    def compare_to_number(number_1, number_2):
        return (number_1 > number_2) - (number_1 < number_2)
'''))
P("data", "utils/XRegistry.py", ("XRegistry.register", '''
    def register(self, instance):
        if instance in self.__registry:
            return
        self.__registry |= {instance}
        self.__current = instance if self.__current is None else self.__current
'''))
P("data", "utils/XTokenHelper.py", ("XTokenHelper.extract_tokens", '''
    @staticmethod
    def extract_tokens(token_string):
        parts = token_string.split("'")
        groups = ([part] if quoted else part.split() for part, quoted in zip(parts, itertools.cycle((False, True))))
        return [key for key in itertools.chain.from_iterable(groups) if key.strip()]
'''), ("XTokenHelper.format_token", '''
    @staticmethod
    def format_token(token):
        def quote(elem):
            return "'%s'" % elem if ' ' in elem else elem
        quoted = (quote(elem) for elem in token)
        return ' '.join(elem for elem in quoted if elem.replace(' ', '') != '')
'''), ("+", "import itertools"))
P("data", "utils/XAttributeUtils.py", ("+", "import functools"), ("XAttributeUtils.get_type", '''
    KINDS = (XAttributeDiscrete, XAttributeLiteral, XAttributeContinuous, XAttributeBoolean, XAttributeID,
             XAttributeList, XAttributeContainer, XAttributeTimestamp)

    @staticmethod
    def get_type(attribute):
        kind = next((k for k in XAttributeUtils.KINDS if isinstance(attribute, k)), None)
        if kind is None:
            raise TypeError('Unexpected attribute type!')
        return kind
'''), ("XAttributeUtils.get_type_string", '''
    @staticmethod
    def get_type_string(attribute):
        names = dict(zip(XAttributeUtils.KINDS, ("DISCRETE", "LITERAL", "CONTINUOUS", "BOOLEAN", "ID", "LIST", "CONTAINER", "TIMESTAMP")))
        return XAttributeType[names[XAttributeUtils.get_type(attribute)]].name
'''), ("XAttributeUtils.derive_prototype", '''
    @staticmethod
    def derive_prototype(instance):
        prototype = instance.clone()
        defaults = {XAttributeLiteral: lambda: prototype.set_value('UNKNOWN'),
                    XAttributeBoolean: lambda: prototype.set_value(True),
                    XAttributeContinuous: functools.partial(prototype.set_value, 0.0) if hasattr(prototype, 'set_value') else None,
                    XAttributeDiscrete: lambda: prototype.set_value(0),
                    XAttributeTimestamp: lambda: prototype.set_value_millis(0),
                    XAttributeID: lambda: prototype.set_value(XIDFactory().create_id()),
                    XAttributeList: lambda: None, XAttributeContainer: lambda: None}
        defaults[XAttributeUtils.get_type(prototype)]()
        return prototype
'''))
P("data", "utils/XTimer.py", ("XTimer.format_duration", '''
    @staticmethod
    def format_duration(millis):
        units = (('days', 86400000), ('hours', 3600000), ('minutes', 60000), ('seconds', 1000))
        text = ''
        for name, size in units:
            if millis > size:
                count, millis = divmod(millis, size)
                text += f'{count} {name}, '
        return f'{text}{millis} milliseconds'
'''))
P("data", "info/XAttributeInfo.py", ("+", "from collections import Counter, defaultdict"), ("XAttributeInfo.__init__", '''
    def __init__(self):
        self.__key_map = {}
        self.__type_map = defaultdict(set)
        self.__extension_map = defaultdict(set)
        self.__frequencies = Counter()
'''), ("XAttributeInfo.get_frequency", '''
    @staticmethod
    def __key_of(element):
        return element.get_key() if isinstance(element, XAttribute) else element

    def get_frequency(self, element):
        if not isinstance(element, (str, XAttribute)):
            return None
        return self.__frequencies.get(self.__key_of(element))
'''), ("XAttributeInfo.get_relative_frequency", '''
    def get_relative_frequency(self, element):
        if isinstance(element, (str, XAttribute)):
            return self.__frequencies.get(self.__key_of(element)) / sum(self.__frequencies.values())
'''), ("XAttributeInfo.get_attributes_for_type", '''
    def get_attributes_for_type(self, type_argument):
        return tuple(self.__type_map.get(type_argument, ()))
'''), ("XAttributeInfo.get_keys_for_type", '''
    def get_keys_for_type(self, type_argument):
        return tuple({attribute.get_key() for attribute in self.get_attributes_for_type(type_argument)})
'''), ("XAttributeInfo.get_attributes_for_extension", '''
    def get_attributes_for_extension(self, extension):
        return tuple(self.__extension_map.get(extension) or ())
'''), ("XAttributeInfo.get_keys_for_extension", '''
    def get_keys_for_extension(self, extension):
        return tuple(set(map(XAttribute.get_key, self.get_attributes_for_extension(extension))))
'''), ("XAttributeInfo.get_attributes_without_extension", '''
    def get_attributes_without_extension(self):
        return self.get_attributes_for_extension(None)
'''), ("XAttributeInfo.register", '''
    def register(self, attribute):
        key = attribute.get_key()
        self.__frequencies[key] += 1
        if key in self.__key_map:
            return
        prototype = self.__key_map[key] = XAttributeUtils.derive_prototype(attribute)
        self.__type_map[XAttributeUtils.get_type(prototype)].add(prototype)
        self.__extension_map[attribute.get_extension()].add(prototype)
'''))
P("data", "info/XTimeBounds.py", ("XTimeBounds.is_within", '''
    def is_within(self, date):
        return self.__first is not None and self.__first <= date <= self.__last
'''), ("XTimeBounds.register", '''
    def register(self, element):
        if isinstance(element, XTimeBounds):
            dates = (element.__first, element.__last)
        elif isinstance(element, XEvent):
            dates = (XTimeExtension().extract_timestamp(element),)
        else:
            dates = (element,)
        for date in filter(lambda d: isinstance(d, datetime), dates):
            self.__first = date if self.__first is None else min(self.__first, date)
            self.__last = date if self.__last is None else max(self.__last, date)
'''), ("XTimeBounds.__str__", '''
    def __str__(self):
        return ' -- '.join(map(str, (self.__first, self.__last)))
'''))
P("data", "info/XAttributeNameMap.py", ("XAttributeNameMap.__str__", '''
    def __str__(self):
        return ''.join(['Attribute name map: ' + self.__name] + ['\\n%s -> %s' % pair for pair in self.__mapping.items()])
'''), ("XAttributeNameMap.map", '''
    def map(self, attribute):
        key = attribute.get_key() if isinstance(attribute, XAttribute) else attribute
        try:
            return self.__mapping[key]
        except (KeyError, TypeError):
            return None
'''))
P("data", "info/XGlobalAttributeNameMap.py", ("XGlobalAttributeNameMap.get_mapping", '''
    def get_mapping(self, name):
        if name not in self.__mappings:
            self.__mappings.update({name: XAttributeNameMap(name)})
        return self.__mappings[name]
'''), ("XGlobalAttributeNameMap.get_available_mappings", '''
    def get_available_mappings(self):
        return tuple(frozenset(self.__mappings.values()))
'''), ("XGlobalAttributeNameMap.map_safely", '''
    def map_safely(self, attribute, mapping):
        if isinstance(attribute, XAttribute):
            attribute = attribute.get_key()
        if isinstance(mapping, str):
            mapping = self.__mappings.get(mapping, self.__standard_mapping)
        if not (isinstance(attribute, str) and isinstance(mapping, XAttributeNameMap)):
            return None
        aliases = (m.map(attribute) for m in (mapping, self.__standard_mapping))
        return next((alias for alias in aliases if alias is not None), attribute)
'''), ("XGlobalAttributeNameMap.__str__", '''
    def __str__(self):
        parts = ['Global attribute name map.\\n\\nContained maps:\\n\\n', *(str(values) + '\\n\\n' for values in self.__mappings.values())]
        return ''.join(parts)
'''))
P("data", "info/XLogInfo.py", ("+", "import itertools"), ("XLogInfo.__init__", '''
    def __init__(self, log, default_classifier, classifiers):
        self.__log = log
        self.__default_classifier = default_classifier
        every = itertools.chain(classifiers or (), (default_classifier, self.NAME_CLASSIFIER, self.RESOURCE_CLASSIFIER,
                                                    self.LIFECYCLE_TRANSITION_CLASSIFIER))
        self.__event_classes = {classifier: XEventClasses(classifier) for classifier in every}
        self.__number_of_events = self.__number_of_traces = 0
        self.__log_boundaries = XTimeBounds()
        self.__trace_boundaries = {}
        (self.__log_attribute_info, self.__trace_attribute_info,
         self.__event_attribute_info, self.__meta_attribute_info) = (XAttributeInfo() for _ in range(4))
        self.setup()
'''), ("XLogInfo.setup", '''
    def setup(self):
        self.register_attributes(self.__log_attribute_info, self.__log)
        self.__number_of_traces = len(self.__log)
        self.__number_of_events = sum(len(trace) for trace in self.__log)
        for trace in self.__log:
            self.register_attributes(self.__trace_attribute_info, trace)
            bounds = self.__trace_boundaries[trace] = XTimeBounds()
            for event in trace:
                self.register_attributes(self.__event_attribute_info, event)
                bounds.register(event)
            self.__log_boundaries.register(bounds)
        for classes in self.__event_classes.values():
            for event in itertools.chain(*self.__log):
                classes.register(event)
            classes.harmonize_indices()
'''), ("XLogInfo.register_attributes", '''
    def register_attributes(self, attribute_info, attributable):
        pending = [(attribute_info, attributable)]
        while pending:
            info, owner = pending.pop(0)
            for attribute in owner.get_attributes().values():
                info.register(attribute)
                pending.append((self.__meta_attribute_info, attribute))
'''), ("XLogInfo.get_event_classes", '''
    def get_event_classes(self, classifier=None):
        return self.__event_classes.get(self.__default_classifier if classifier is None else classifier)
'''), ("XLogInfo.get_event_classifiers", '''
    def get_event_classifiers(self):
        return {*self.__event_classes}
'''))

# ---------------------------------------------------------------- pack "model": ordering mixins, generic clones, bisect
ORDER = '''
    import functools


    class Ordered:
        def __lt__(self, other):
            return self.compare_to(other) < 0

        def __le__(self, other):
            return self.compare_to(other) <= 0

        def __gt__(self, other):
            return self.compare_to(other) > 0

        def __ge__(self, other):
            return self.compare_to(other) >= 0

        def __ne__(self, other):
            return not self == other
'''
P("model", "utils/CompareUtils.py", ("+", ORDER))
P("model", "model/XAttribute.py", ("*", '''
    from opyenxes.model.XAttributable import XAttributable
    from opyenxes.utils.CompareUtils import compare_to_string, Ordered


    class XAttribute(Ordered, XAttributable):
        def __init__(self, key, extension=None):
            super().__init__()
            self.__key, self.__extension = key, extension

        def get_key(self):
            return self.__key

        def get_extension(self):
            return self.__extension

        def _arguments(self):
            return (self.get_key(), self.get_value(), self.get_extension())

        def clone(self):
            copy = type(self)(*self._arguments())
            copy.set_attributes(self.get_attributes().clone())
            return copy

        def compare_to(self, other):
            return compare_to_string(self.__key, other.get_key())

        def __hash__(self):
            return hash(self.__key)

        def __eq__(self, other):
            return isinstance(other, XAttribute) and self.__key == other.get_key()
'''))
P("model", "model/XAttributable.py", ("*", '''
    from opyenxes.model.XAttributeMap import XAttributeMap


    class XAttributable:
        def __init__(self, attribute=None):
            self.__attributes = attribute or XAttributeMap()

        def get_extensions(self):
            own = {attribute.get_extension() for attribute in self.__attributes.values()} - {None}
            return own.union(*(attribute.get_extensions() for attribute in self.__attributes.values()))

        def get_attributes(self):
            return self.__attributes

        def set_attributes(self, attributes):
            self.__attributes = attributes

        def has_attributes(self):
            return bool(self.__attributes)
'''))
P("model", "model/XAttributeCollection.py", ("*", '''
    from opyenxes.model.XAttribute import XAttribute


    class XAttributeCollection(XAttribute):
        def __init__(self, key, extension=None):
            super().__init__(key, extension)
            self.__collection = []

        def add_to_collection(self, attribute):
            self.__collection += [attribute]

        def get_collection(self):
            return self.__collection[:]

        def _arguments(self):
            return (self.get_key(), self.get_extension())

        def clone(self):
            copy = super().clone()
            for attribute in self.__collection:
                copy.add_to_collection(attribute.clone())
            return copy

        def __hash__(self):
            return super().__hash__()

        def __eq__(self, other):
            return isinstance(other, XAttributeCollection) and super().__eq__(other)

        def __str__(self):
            return '[{}]'.format(','.join(f'{a.get_key()}:{a}' for a in self.__collection))
'''))
for _k in ("List", "Container"):
    P("model", "model/XAttribute%s.py" % _k, ("*", '''
        from opyenxes.model.XAttributeCollection import XAttributeCollection


        class XAttribute%s(XAttributeCollection):
            pass
    ''' % _k))
P("model", "model/XAttributeMap.py", ("*", '''
    class XAttributeMap(dict):
        def __init__(self, dictionary=None):
            super().__init__(dictionary or {})

        def clone(self):
            return XAttributeMap({key: value.clone() for key, value in self.items()})

        def is_empty(self):
            return not self
'''))
P("model", "model/XAttributeBoolean.py", ("*", '''
    from opyenxes.model.XAttribute import XAttribute
    from opyenxes.utils.CompareUtils import compare_to_boolean


    class XAttributeBoolean(XAttribute):
        def __init__(self, key, value, extension=None):
            super().__init__(key, extension)
            self.set_value(value)

        def get_value(self):
            return self.__value

        def set_value(self, value):
            self.__value = value

        def compare_to(self, obj):
            return super().compare_to(obj) or compare_to_boolean(self.__value, obj.get_value())

        def __str__(self):
            return {True: 'true', False: 'false'}[self.__value]

        def __hash__(self):
            return hash((self.get_key(), self.__value))

        def __eq__(self, other):
            return self is other or (isinstance(other, XAttributeBoolean) and super().__eq__(other)
                                     and self.__value == other.__value)
'''))
P("model", "model/XAttributeTimestamp.py", ("XAttributeTimestamp.__init__", '''
    def __init__(self, key, value, extension=None):
        super().__init__(key, extension)
        self.__value = value if isinstance(value, datetime) else datetime.fromtimestamp(self.__timestamp(value))
'''), ("XAttributeTimestamp.compare_to", '''
    def compare_to(self, obj):
        by_key = super().compare_to(obj)
        if by_key != 0:
            return by_key
        mine, theirs = self.__value, obj.get_value()
        return 0 if mine == theirs else (1 if mine > theirs else -1)
'''), ("XAttributeTimestamp.__str__", '''
    def __str__(self):
        text = self.__value.isoformat(timespec='milliseconds')
        if self.__value.tzinfo is None:
            return text + 'Z'
        return text[:-len('+00:00')] + 'Z' if text.endswith('+00:00') else text
'''), ("XAttributeTimestamp.__lt__", ""), ("XAttributeTimestamp.__le__", ""), ("XAttributeTimestamp.__gt__", ""),
    ("XAttributeTimestamp.__ge__", ""), ("XAttributeTimestamp.clone", ""))
P("model", "model/XEvent.py", ("XEvent.__init__", '''
    def __init__(self, attributes=None, identity=None):
        super().__init__(attributes or XAttributeMap())
        self.__id = identity or XIDFactory.create_id()
'''), ("XEvent.clone", '''
    def clone(self):
        return XEvent(self.get_attributes().clone(), XIDFactory.create_id())
'''), ("XEvent.__eq__", '''
    def __eq__(self, other):
        return isinstance(other, XEvent) and self.get_id() == other.get_id()
'''))
P("model", "model/XTrace.py", ("XTrace.clone", '''
    def clone(self):
        copy = XTrace(self.get_attributes().clone())
        copy.extend(event.clone() for event in self)
        return copy
'''), ("XTrace.insert_ordered", '''
    def insert_ordered(self, event):
        position = len(self)
        when = self.__time_of(event)
        while when is not None and position > 0:
            before = self.__time_of(self[position - 1])
            if before is None:
                position = len(self)
                break
            if before <= when:
                break
            position -= 1
        self.insert(position, event)
        return position

    @staticmethod
    def __time_of(event):
        stamp = event.get_attributes().get('time:timestamp')
        return None if stamp is None else stamp.get_value()
'''))
P("model", "model/XLog.py", ("XLog.clone", '''
    def clone(self):
        copy = XLog(self.get_attributes().clone())
        copy.__extension |= self.__extension
        copy.__classifiers[:] = self.__classifiers
        for mine, theirs in ((self.__globalTraceAttributes, copy.__globalTraceAttributes),
                             (self.__globalEventAttributes, copy.__globalEventAttributes)):
            theirs.extend(attribute.clone() for attribute in mine)
        copy.__features.update(self.__features)
        copy += [trace.clone() for trace in self]
        return copy
'''), ("XLog.get_info", '''
    def get_info(self, classifier):
        return self.__cachedInfo if classifier == self.__cachedClassifier else None
'''))
P("model", "classification/XEventAndClassifier.py", ("XEventAndClassifier.__init__", '''
    def __init__(self, comparators):
        if not comparators:
            raise ValueError('The comparators must have at least 1 element ')
        keys = {key for comparator in comparators for key in comparator.get_defining_attribute_keys()}
        super().__init__('(%s)' % ' AND '.join(c.name() for c in comparators), sorted(keys))
'''))
P("model", "classification/XEventAttributeClassifier.py", ("XEventAttributeClassifier.get_class_identity", '''
    def get_class_identity(self, event):
        attributes = event.get_attributes()
        return '&&'.join(str(attributes[key]) if key in attributes else '' for key in self.__keys)
'''), ("XEventAttributeClassifier.compare_to", '''
    def compare_to(self, obj):
        by_name = compare_to_string(self.__name, obj.name())
        keys = obj.get_defining_attribute_keys()
        by_length = len(self.__keys) - len(keys)
        by_keys = next((c for c in map(compare_to_string, self.__keys, keys) if c), 0)
        return by_name or by_length or by_keys
'''), ("XEventAttributeClassifier.__hash__", '''
    def __hash__(self):
        return hash((self.__name,) + tuple(self.__keys))
'''))
P("model", "classification/XEventClass.py", ("+", "from functools import total_ordering"), ("XEventClass", '''
    @total_ordering
    class XEventClass:
        def __init__(self, identity, index):
            self.__id, self.__index, self.__size = identity, index, 0

        def get_id(self):
            return self.__id

        def get_index(self):
            return self.__index

        def size(self):
            return self.__size

        def set_size(self, size):
            self.__size = size

        def increment_size(self):
            self.set_size(self.size() + 1)

        def compare_to(self, obj):
            return compare_to_string(self.__id, obj.get_id())

        def __str__(self):
            return self.get_id()

        def __hash__(self):
            return hash(self.get_id())

        def __lt__(self, other):
            return self.compare_to(other) < 0

        def __eq__(self, other):
            return isinstance(other, XEventClass) and self.__id == other.__id
'''))
P("model", "classification/XEventClasses.py", ("XEventClasses.register", '''
    def register(self, element):
        stack = [element]
        while stack:
            item = stack.pop()
            if isinstance(item, XEvent):
                stack.append(self.__classifier.get_class_identity(item))
            elif isinstance(item, XElement):
                stack.extend(reversed(item))
            elif isinstance(item, str):
                if item not in self.__class_map:
                    self.__class_map[item] = XEventClass(item, len(self.__class_map))
                self.__class_map[item].increment_size()
            else:
                raise TypeError('The argument must be a XElement or string')
'''), ("XEventClasses.harmonize_indices", '''
    def harmonize_indices(self):
        result = {}
        for index, old in enumerate(sorted(self.__class_map.values(), key=XEventClass.get_id)):
            result[old.get_id()] = XEventClass(old.get_id(), index)
            result[old.get_id()].set_size(old.size())
        self.__class_map = result
'''), ("XEventClasses.get_by_index", '''
    def get_by_index(self, index):
        found = [c for c in self.__class_map.values() if c.get_index() == index]
        return found[0] if found else None
'''))
P("model", "id/XID.py", ("XID.__init__", '''
    def __init__(self, uuid_arg=None):
        self.__uuid = uuid_arg or uuid.uuid4()
'''), ("XID.compare_to", '''
    def compare_to(self, other):
        return (self.__uuid > other.__uuid) - (self.__uuid < other.__uuid)
'''), ("XID.__str__", '''
    def __str__(self):
        return f'{self.__uuid}'.upper()
'''))

# ---------------------------------------------------------------- pack "xes": reader/writer by tables, generators, dispatch by name
P("xes", "data_out/XesXmlSerializer.py", ("XesXmlSerializer.serialize", '''
    COMMENTS = ('This file has been generated with the OpenXES library. It conforms',
                'to the XML serialization of the XES standard for log storage and', 'management.', 'XES standard version: 1.0',
                'OpenXES library version: 1.0RC7', 'OpenXES is available from http://www.openxes.org/')
    TAGS = {XAttributeDiscrete: 'int', XAttributeLiteral: 'string', XAttributeContinuous: 'float', XAttributeBoolean: 'boolean',
            XAttributeID: 'id', XAttributeList: 'list', XAttributeContainer: 'container', XAttributeTimestamp: 'date'}

    def serialize(self, log, out, in_bytes=False):
        logging, level = XLogging(), XLogging.Importance.DEBUG
        logging.log('Start serializing log to XES.XML', level)
        start = time.time() * 1000
        text = self._document(self._tree(log)).toprettyxml('\\t')
        out.write(text.encode() if in_bytes else text)
        logging.log('finished serializing log (%s msec.)' % (time.time() * 1000 - start), level)

    def _document(self, root):
        document = minidom.parseString(Et.tostring(root, 'utf-8'))
        first = document.childNodes[0]
        for comment in self.COMMENTS:
            document.insertBefore(document.createComment(comment), first)
        return document

    def _tree(self, log):
        root = Et.Element('log', {'xes.version': '1.0', 'xes.features': 'nested-attributes', 'openxes.version': '1.0RC7'})
        for extension in log.get_extensions():
            Et.SubElement(root, 'extension', name=extension.get_name(), prefix=extension.get_prefix(), uri=extension.get_uri().geturl())
        for scope, attributes in (('trace', log.get_global_trace_attributes()), ('event', log.get_global_event_attributes())):
            self.add_global_attributes(root, scope, attributes)
        for classifier in (c for c in log.get_classifiers() if isinstance(c, XEventAttributeClassifier)):
            Et.SubElement(root, 'classifier', {'name': classifier.name(), 'keys': XTokenHelper.format_token(classifier.get_defining_attribute_keys())})
        self.add_attributes(root, log.get_attributes().values())
        for trace in log:
            node = Et.SubElement(root, 'trace')
            self.add_attributes(node, trace.get_attributes().values())
            for event in trace:
                self.add_attributes(Et.SubElement(node, 'event'), event.get_attributes().values())
        return root
'''), ("XesXmlSerializer.add_attributes", '''
    def add_attributes(self, tag, attributes):
        for attribute in attributes:
            name = next(n for kind, n in self.TAGS.items() if isinstance(attribute, kind))
            node = Et.SubElement(tag, name, key=attribute.get_key())
            if isinstance(attribute, XAttributeCollection):
                self.add_attributes(node, attribute.get_collection())
                continue
            node.attrib['value'] = str(attribute)
            self.add_attributes(node, attribute.get_attributes().values())
'''))
P("xes", "data_in/XesXmlParser.py", ("XesXmlParser.__init__", '''
    def __init__(self, factory=None):
        self.factory = factory or XFactoryRegistry().current_default()
'''), ("XesXmlParser.ends_with_ignore_case", '''
    @staticmethod
    def ends_with_ignore_case(name, suffix):
        return len(name) > len(suffix) and name.lower().endswith(suffix)
'''), ("XesXmlParser.XesXmlHandler.startElement", '''
    ATTRIBUTES = frozenset(('string', 'date', 'int', 'float', 'boolean', 'id', 'list', 'container'))

    def startElement(self, element_name, attributes):
        tag_name = element_name.lower()
        if tag_name in self.ATTRIBUTES:
            self.__start_attribute(tag_name, attributes)
        else:
            method = getattr(self, '_start_' + tag_name, None)
            if method is not None:
                method(attributes)

    def _start_event(self, _):
        self.__event = self.__factory.create_event()
        self.__attributable_stack.append(self.__event)

    def _start_trace(self, _):
        self.__trace = self.__factory.create_trace()
        self.__attributable_stack.append(self.__trace)

    def _start_log(self, attributes):
        self.__log = self.__factory.create_log()
        for attr_name, attr in attributes.items():
            if attr_name.startswith(('xes.', 'openxes.')):
                self.__log.set_features(attr_name, attr)
        self.__attributable_stack.append(self.__log)

    def _start_extension(self, attributes):
        prefix, uri = (attributes.get(name) for name in ('prefix', 'uri'))
        if prefix is not None:
            extension = XExtensionManager().get_by_prefix(prefix)
        else:
            extension = None if uri is None else XExtensionManager().get_by_uri(parse.urlparse(uri))
        if extension is None:
            print('Unknown extension: {}'.format(uri))
        else:
            self.__log.get_extensions().add(extension)

    def _start_global(self, attributes):
        scopes = {'trace': self.__log.get_global_trace_attributes, 'event': self.__log.get_global_event_attributes}
        scope = attributes.get('scope').lower()
        if scope in scopes:
            self.__globals = scopes[scope]()

    def _start_classifier(self, attributes):
        name, keys = attributes.get('name'), attributes.get('keys')
        if name and keys:
            self.__log.get_classifiers().append(XEventAttributeClassifier(name, XTokenHelper.extract_tokens(keys)))

    def __start_attribute(self, tag_name, attributes):
        name, value = attributes.get('key', 'UNKNOWN'), attributes.get('value', '')
        prefix, colon, _ = name.partition(':')
        extension = XExtensionManager().get_by_prefix(prefix) if colon else None
        create, convert = {
            'string': (self.__factory.create_attribute_literal, str),
            'date': (self.__factory.create_attribute_timestamp, parse_date_time),
            'int': (self.__factory.create_attribute_discrete, int),
            'float': (self.__factory.create_attribute_continuous, float),
            'boolean': (self.__factory.create_attribute_boolean, lambda text: text.lower() == 'true'),
            'id': (self.__factory.create_attribute_id, XID.parse),
            'list': (self.__factory.create_attribute_list, None),
            'container': (self.__factory.create_attribute_container, None)}[tag_name]
        arguments = (name,) if convert is None else (name, convert(value))
        attribute = None if None in arguments else create(*arguments, extension)
        for stack in (self.__attribute_stack, self.__attributable_stack):
            stack.append(attribute)
'''), ("XesXmlParser.XesXmlHandler.endElement", '''
    def endElement(self, local_name):
        tag_name = local_name.lower()
        if tag_name in self.ATTRIBUTES:
            attribute = self.__attribute_stack.pop()
            self.__attributable_stack.pop()
            *_, owner = self.__attributable_stack
            if attribute is not None and owner is not None:
                self.__attach(attribute, owner)
        elif tag_name == 'global':
            self.__globals = None
        elif tag_name in ('event', 'trace', 'log'):
            done = self.__attributable_stack.pop()
            if tag_name == 'event':
                self.__trace.append(done)
                self.__event = None
            elif tag_name == 'trace':
                self.__log.append(done)
                self.__trace = None

    def __attach(self, attribute, owner):
        if not self.__attribute_stack and self.__globals is not None:
            self.__globals.append(attribute)
            return
        owner.get_attributes().update({attribute.get_key(): attribute})
        if isinstance(owner, XAttributeCollection):
            owner.add_to_collection(attribute)
'''))
P("xes", "data_in/XesXmlGZIPParser.py", ("XesXmlGZIPParser.can_parse", '''
    def can_parse(self, file):
        return any(self.ends_with_ignore_case(file, suffix) for suffix in ('.xez', '.xes.gz'))
'''), ("XesXmlGZIPParser.parse", '''
    def parse(self, file):
        file.close()
        with contextlib.closing(gzip.GzipFile(file.name)) as data:
            return super().parse(data)
'''), ("+", "import contextlib"))
P("xes", "data_in/XUniversalParser.py", ("XUniversalParser.can_parse", '''
    @staticmethod
    def can_parse(file):
        return any(parser.can_parse(file) for parser in XParserRegistry().get_available())
'''), ("XUniversalParser.parse", '''
    @staticmethod
    def parse(file):
        for parser in filter(lambda p: p.can_parse(file.name), XParserRegistry().get_available()):
            try:
                return parser.parse(file)
            except Exception as error:
                print(error)
        raise Exception('No suitable parser could be found!')
'''))
P("xes", "data_in/XParserRegistry.py", ("XParserRegistry.__init__", '''
    def __init__(self):
        super().__init__()
        *others, last = (kind() for kind in (XMxmlParser, XMxmlGZIPParser, XesXmlParser, XesXmlGZIPParser))
        for parser in others:
            self.register(parser)
        self.set_current_default(last)
'''))
P("xes", "data_out/XesXmlGZIPSerializer.py", ("XesXmlGZIPSerializer.serialize", '''
    def serialize(self, log, out, in_bytes=False):
        out.close()
        with gzip.open(out.name, mode='w') as file:
            XesXmlSerializer.serialize(self, log, file, in_bytes=True)
'''))
P("xes", "extension/XExtension.py", ("XExtension.get_defined_attributes", '''
    def get_defined_attributes(self):
        return self.__log_attributes | self.__trace_attributes | self.__event_attributes | self.__meta_attributes
'''), ("XExtension.__eq__", '''
    def __eq__(self, other):
        return isinstance(other, XExtension) and self.get_uri() == other.get_uri()
'''))
P("xes", "extension/XExtensionManager.py", ("XExtensionManager.register", '''
    def register(self, extension):
        self.__extension_map[extension.get_uri()] = extension
        try:
            self.__extension_list[self.__extension_list.index(extension)] = extension
        except ValueError:
            self.__extension_list.append(extension)
'''), ("XExtensionManager.get_by_name", '''
    def __first(self, getter, wanted):
        return next((elem for elem in self.__extension_list if getter(elem) == wanted), None)

    def get_by_name(self, name):
        return self.__first(lambda elem: elem.get_name(), name)
'''), ("XExtensionManager.get_by_prefix", '''
    def get_by_prefix(self, prefix):
        return self.__first(operator.methodcaller('get_prefix'), prefix)
'''), ("XExtensionManager.get_by_index", '''
    def get_by_index(self, index):
        return self.__extension_list[index] if 0 <= index < len(self.__extension_list) else None
'''), ("XExtensionManager.get_index", '''
    def get_index(self, extension):
        return next((i for i, elem in enumerate(self.__extension_list) if elem == extension), -1)
'''), ("XExtensionManager.register_standard_extensions", '''
    STANDARD = (XConceptExtension, XCostExtension, XIdentityExtension, XLifecycleExtension, XMicroExtension,
                XOrganizationalExtension, XSemanticExtension, XTimeExtension)

    def register_standard_extensions(self):
        for kind in self.STANDARD:
            self.register(kind())
'''), ("XExtensionManager.cache_extension", '''
    @staticmethod
    def cache_extension(uri):
        address = uri.geturl()
        stem = address[:-1] if address.endswith('/') else address
        filename = '/' + stem.rpartition('/')[2]
        if not filename.endswith('.xesext'):
            filename = filename + '.xesext'
        cache_file = ''.join((XRuntimeUtils().get_extension_cache_folder(), os.sep, filename))
        try:
            with request.urlopen(address) as bis:
                with open(cache_file, mode='wb') as bos:
                    for block in iter(lambda: bis.read(1024), b''):
                        bos.write(block)
            XLogging().log("Cached XES extension \\\\'" + address + "\\\\'", XLogging.Importance.DEBUG)
        except IOError as e:
            print('I/O error({0}): {1}'.format(e.errno, e.strerror))
'''), ("XExtensionManager.load_extension_cache", '''
    def load_extension_cache(self):
        oldest = int(round(time.time() * 1000)) - 30 * 24 * 60 * 60 * 1000
        folder = XRuntimeUtils().get_extension_cache_folder()
        paths = {name: os.path.join(folder, name) for name in os.listdir(folder)}
        names = list(filter(lambda name: os.path.isfile(paths[name]), paths))
        if not names:
            XLogging().log('Extension caching disabled (Could not access cache directory)!', XLogging.Importance.WARNING)
        for name in names:
            if not name.lower().endswith('.xesext'):
                continue
            if os.path.getmtime(paths[name]) * 1000 < oldest:
                with contextlib.suppress(FileNotFoundError):
                    os.remove(paths[name])
                continue
            try:
                self.__adopt(XExtensionParser.parse(paths[name]))
            except Exception as e:
                print('Exception error: {}'.format(e))

    def __adopt(self, extension):
        uri = extension.get_uri()
        if self.get_by_uri(uri) is not None:
            message = "Skipping cached XES extension '%s' (already defined)"
        else:
            self.__extension_map[uri] = extension
            self.__extension_list.append(extension)
            message = "Loaded XES extension '%s' from cache"
        XLogging().log(message % uri.geturl(), XLogging.Importance.DEBUG)
'''), ("+", "import contextlib, operator"))
P("xes", "extension/XExtensionParser.py", ("XExtensionParser.XExtensionHandler.startElement", '''
    SCOPES = ('log', 'trace', 'event', 'meta')

    def startElement(self, name, attributes):
        tag = name.lower()
        if tag == 'xesextension':
            title, prefix, uri = map(attributes.getValue, ('name', 'prefix', 'uri'))
            self.__extension = XExtension(title, prefix, parse.urlparse(uri))
        elif tag in self.SCOPES:
            self.__xAttributes = getattr(self.__extension, 'get_%s_attributes' % tag)()
        elif tag == 'alias':
            if self.__currentAttribute is not None:
                XGlobalAttributeNameMap().register_mapping(attributes.getValue('mapping'), self.__currentAttribute.get_key(),
                                                           attributes.getValue('name'))
        else:
            kinds = {'string': ('literal', 'DEFAULT'), 'date': ('timestamp', 0), 'int': ('discrete', 0), 'float': ('continuous', 0.0),
                     'boolean': ('boolean', False), 'id': ('id', None)}
            if tag in kinds:
                kind, default = kinds[tag]
                if default is None:
                    default = XIDFactory.create_id()
                create = getattr(self.__factory, 'create_attribute_' + kind)
                key = ':'.join((self.__extension.get_prefix(), attributes.getValue('key')))
                self.__currentAttribute = create(key, default, self.__extension)
                self.__xAttributes.add(self.__currentAttribute)
'''))

# ---------------------------------------------------------------- pack "mxml": MXML reader/writer, extensions, singletons
P("mxml", "data_out/XMxmlSerializer.py", ("XMxmlSerializer.__init__", '''
    def __init__(self):
        self.__known_types = set('schedule assign withdraw reassign start suspend resume pi_abort ate_abort complete autoskip manualskip'.split())
'''), ("XMxmlSerializer.serialize", '''
    def serialize(self, log, out, in_bytes=False):
        XLogging().log('start serializing log to MXML', XLogging.Importance.DEBUG)
        began = time.time()
        root = Et.Element('WorkflowLog')
        Et.SubElement(root, 'Source').attrib.update({'program': 'XES MXML serialization', 'openxes.version': '1.0RC7'})
        process = self.__named(root, 'Process', log, 'process', 'none')
        for trace in log:
            instance = self.__named(process, 'ProcessInstance', trace, 'instance', 'None')
            for event in trace:
                self.__entry(Et.SubElement(instance, 'AuditTrailEntry'), event)
        text = minidom.parseString(Et.tostring(root, 'utf-8'))
        for comment in reversed(['This file has been generated with the OpenXES library. It conforms',
                                 'to the legacy MXML standard for log storage and management.', 'OpenXES library version: 1.0RC7',
                                 'OpenXES is available from http://www.xes-standard.org/']):
            text.insertBefore(text.createComment(comment), text.firstChild)
        pretty = text.toprettyxml(indent='\\t')
        if in_bytes:
            pretty = pretty.encode('utf-8')
        out.write(pretty)
        XLogging().log(f'finished serializing log ({(time.time() - began) * 1000} msec.)', XLogging.Importance.DEBUG)

    def __named(self, parent, tag, element, word, missing):
        name = XConceptExtension().extract_name(element)
        node = Et.SubElement(parent, tag)
        node.set('id', missing if name is None else name)
        node.set('description', '%s with id %s' % (word, 'None' if name is None else name))
        self.add_model_reference(element, node)
        self.add_attribute(node, element.get_attributes().values())
        return node

    def __entry(self, ate, event):
        attributes = event.get_attributes()
        self.add_attribute(ate, attributes.values())
        element = Et.SubElement(ate, 'WorkflowModelElement')
        self.add_model_reference(event, element)
        element.text = XConceptExtension().extract_name(event)
        node = Et.SubElement(ate, 'EventType')
        transition = attributes.get('lifecycle:transition')
        if transition is None:
            node.text = 'complete'
        else:
            self.add_model_reference(transition, node)
            kind = transition.get_value().strip().lower()
            node.text = kind if kind in self.__known_types else 'unknown'
            if kind not in self.__known_types:
                node.attrib['unknowntype'] = transition.get_value()
        candidates = [attributes[key] for key in ('org:resource', 'org:role', 'org:group') if key in attributes]
        if candidates:
            node = Et.SubElement(ate, 'Originator')
            self.add_model_reference(candidates[0], node)
            node.text = candidates[0].get_value()
        if 'time:timestamp' in attributes:
            node = Et.SubElement(ate, 'Timestamp')
            self.add_model_reference(attributes['time:timestamp'], node)
            node.text = str(attributes['time:timestamp'])
'''), ("XMxmlSerializer.add_attribute", '''
    def add_attribute(self, tag, attributes, key_prefix=None):
        node = Et.SubElement(tag, 'Data') if key_prefix is None else tag
        for name, attribute in self.__flatten(attributes, key_prefix or ''):
            attribute_tag = Et.SubElement(node, 'Attribute', {'name': name})
            self.add_model_reference(attribute, attribute_tag)
            attribute_tag.text = str(attribute)

    def __flatten(self, attributes, prefix):
        for attribute in attributes:
            if attribute.get_key() == 'semantic:modelReference':
                continue
            name = prefix + attribute.get_key()
            yield name, attribute
            yield from self.__flatten(attribute.get_attributes().values(), name + ':')
'''), ("XMxmlSerializer.add_model_reference", '''
    @staticmethod
    def add_model_reference(element, target):
        try:
            reference = element.get_attributes()['semantic:modelReference']
        except KeyError:
            return
        target.set('modelReference', reference.get_value())
'''))
P("mxml", "data_in/XMxmlParser.py", ("XMxmlParser.can_parse", '''
    def can_parse(self, file):
        return True in [self.ends_with_ignore_case(file, suffix) for suffix in ('.mxml', '.xml')]
'''), ("XMxmlParser.ends_with_ignore_case", '''
    @staticmethod
    def ends_with_ignore_case(name, suffix):
        return len(name) > len(suffix) and name[-len(suffix):].lower() == suffix
'''), ("XMxmlParser.MxmlHandler.startElement", '''
    def startElement(self, element_name, attributes):
        starts = {'Source': self._source, 'Process': self._process, 'ProcessInstance': self._instance,
                  'AuditTrailEntry': self._entry, 'Attribute': self._attribute, 'EventType': self._event_type,
                  'WorkflowModelElement': self._element, 'Originator': self._originator}
        starts.get(element_name, lambda attributes: None)(attributes)

    def _source(self, attributes):
        self.__sourceOpen = True
        self.__sourceAttribute = self.__factory.create_attribute_literal('source', attributes.get('program'), None)
        self.__add_model_reference__(attributes, self.__sourceAttribute)

    def __put(self, owner, attribute):
        owner.get_attributes()[attribute.get_key()] = attribute

    def _process(self, attributes):
        log = self.__currentProcess = self.__factory.create_log()
        log.get_extensions().update((XConceptExtension(), XOrganizationalExtension(), XLifecycleExtension(),
                                     XSemanticExtension(), XTimeExtension()))
        if self.__sourceAttribute is not None:
            self.__put(log, self.__sourceAttribute)
        XConceptExtension().assign_name(log, attributes.get('id'))
        XLifecycleExtension().assign_model(log, 'standard')
        if attributes.get('description'):
            self.__put(log, self.__factory.create_attribute_literal('description', attributes.get('description'), None))
        self.__add_model_reference__(attributes, log)

    def _instance(self, attributes):
        trace = self.__currentInstance = self.__factory.create_trace()
        XConceptExtension().assign_name(trace, attributes['id'] if 'id' in attributes else 'None')
        if attributes.get('description', '').strip():
            self.__put(trace, self.__factory.create_attribute_literal('description', attributes['description'], None))
        self.__add_model_reference__(attributes, trace)

    def _entry(self, _):
        self.__entry = self.__factory.create_event()

    def _attribute(self, attributes):
        self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get('name').strip(), 'DEFAULT_VALUE', None)
        self.__add_model_reference__(attributes, self.__genericAttribute)

    def _event_type(self, attributes):
        self.__eventTypeAttribute = XLifecycleExtension().ATTR_TRANSITION.clone()
        self.__eventTypeAttribute.set_value(attributes.get('unknowntype') or 'UNKNOWN')
        self.__add_model_reference__(attributes, self.__eventTypeAttribute)

    def _element(self, attributes):
        self.__add_model_reference__(attributes, self.__entry)

    def _originator(self, attributes):
        self.__originatorAttribute = XOrganizationalExtension().ATTR_RESOURCE.clone()
        self.__add_model_reference__(attributes, self.__originatorAttribute)
'''), ("XMxmlParser.MxmlHandler.endElement", '''
    def endElement(self, local_name):
        text = ''.join(self.__buffer).strip()
        del self.__buffer[:]
        if local_name == 'Process':
            log, self.__currentProcess = self.__currentProcess, None
            log.get_classifiers().extend(XMxmlParser.MXML_CLASSIFIERS)
            log.get_global_trace_attributes().append(XConceptExtension().ATTR_NAME.clone())
            log.get_global_event_attributes().extend([XConceptExtension().ATTR_NAME.clone(), XLifecycleExtension().ATTR_TRANSITION.clone()])
            self.__logs.append(log)
        elif local_name == 'Source':
            self.__sourceOpen = False
        elif local_name == 'ProcessInstance':
            if self.__currentInstance:
                self.__currentProcess.append(self.__currentInstance)
            self.__currentInstance = None
        elif local_name == 'AuditTrailEntry':
            self.__currentInstance.append(self.__entry)
            self.__entry = None
        elif local_name == 'Attribute':
            owners = [self.__entry, self.__currentInstance, self.__currentProcess,
                      self.__sourceAttribute if self.__sourceOpen else None]
            owner = next((o for o in owners if o is not None), None)
            if text:
                self.__genericAttribute.set_value(text)
                if owner is not None:
                    self.__put(owner, self.__genericAttribute)
            self.__genericAttribute = None
        elif local_name == 'EventType':
            attribute, self.__eventTypeAttribute = self.__eventTypeAttribute, None
            known = attribute.get_value() != 'UNKNOWN'
            if known or text:
                if not known:
                    attribute.set_value(text)
                self.__put(self.__entry, attribute)
        elif local_name == 'WorkflowModelElement':
            XConceptExtension().assign_name(self.__entry, text)
        elif local_name == 'Timestamp':
            moment = parse_date_time(text)
            if moment is not None:
                stamp = XTimeExtension().ATTR_TIMESTAMP.clone()
                stamp.set_value(moment)
                self.__put(self.__entry, stamp)
        elif local_name == 'Originator':
            if text:
                self.__originatorAttribute.set_value(text)
                self.__put(self.__entry, self.__originatorAttribute)
            self.__originatorAttribute = None
'''), ("XMxmlParser.MxmlHandler.__add_model_reference__", '''
    @staticmethod
    def __add_model_reference__(attrib, subject):
        model_reference = attrib.getValue('modelReference') if 'modelReference' in attrib.getNames() else None
        if model_reference:
            attribute = XSemanticExtension().ATTR_MODELREFERENCE.clone()
            attribute.set_value(model_reference)
            subject.get_attributes().setdefault(attribute.get_key(), attribute)
            subject.get_attributes()[attribute.get_key()] = attribute
'''))
P("mxml", "utils/SingletonClassGenerator.py", ("*", '''
    import threading


    class _Singleton(type):
        instance = None

        def __call__(cls, *args, **kw):
            meta = type(cls)
            if meta.instance is None:
                meta.instance = super().__call__(*args, **kw)
            return meta.instance


''' + "\n".join("    class %s(_Singleton):\n        instance = None\n" % n for n in (
    "XCostAmountMetaclass XCostDriverMetaclass XCostTypeMetaclass XCostExtensionMetaclass XConceptExtensionMetaclass XExtensionManagerMetaclass "
    "XExtensionMetaclass XLifecycleExtensionMetaclass XIdentityExtensionMetaclass XFactoryRegistryMetaclass XIDFactoryMetaclass "
    "XGlobalAttributeNameMapMetaclass XMicroExtensionMetaclass XTimeExtensionMetaclass XOrganizationalExtensionMetaclass "
    "XSemanticExtensionMetaclass XSerializerRegistryMetaclass XParserRegistryMetaclass").split())))
P("mxml", "extension/XExtension.py", ("XExtension.get_meta_attributes", '''
    def get_meta_attributes(self):
        return self.__meta_attributes

    def _names(self, table):
        names = XGlobalAttributeNameMap()
        for language, aliases in table.items():
            for key, alias in aliases:
                names.register_mapping(language, self.get_prefix() + ':' + key, alias)

    def _extract(self, element, key):
        attribute = element.get_attributes().get(key)
        return None if attribute is None else attribute.get_value()

    def _assign(self, element, prototype, value):
        attribute = prototype.clone()
        attribute.set_value(value)
        element.get_attributes()[attribute.get_key()] = attribute
'''), ("+", "from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap"))
P("mxml", "extension/std/XConceptExtension.py", ("XConceptExtension.__init__", '''
    def __init__(self):
        super().__init__('Concept', 'concept', urlparse('http://www.xes-standard.org/concept.xesext'))
        create = XFactoryRegistry().current_default().create_attribute_literal
        for field, key in (('ATTR_NAME', 'concept:name'), ('ATTR_INSTANCE', 'concept:instance')):
            setattr(self, field, create(key, 'UNKNOWN', self))
        for attributes in (self.get_log_attributes(), self.get_trace_attributes(), self.get_event_attributes()):
            attributes.add(self.ATTR_NAME.clone())
        self.get_event_attributes().add(self.ATTR_INSTANCE.clone())
        self._names({'EN': [('name', 'Name'), ('instance', 'Instance')], 'DE': [('name', 'Name'), ('instance', 'Instanz')],
                     'FR': [('name', 'Appellation'), ('instance', 'Entité')], 'ES': [('name', 'Nombre'), ('instance', 'Instancia')],
                     'PT': [('name', 'Nome'), ('instance', 'Instância')]})
'''), ("XConceptExtension.extract_name", '''
    @staticmethod
    def extract_name(element):
        found = element.get_attributes().get('concept:name')
        return found if found is None else found.get_value()
'''), ("XConceptExtension.assign_name", '''
    def assign_name(self, element, name):
        if name and not name.isspace():
            self._assign(element, self.ATTR_NAME, name)
'''), ("XConceptExtension.assign_instance", '''
    def assign_instance(self, event, instance):
        if (instance or '').strip():
            self._assign(event, self.ATTR_INSTANCE, instance)
'''))
P("mxml", "extension/std/XLifecycleExtension.py", ("XLifecycleExtension.StandardModel", '''
    class StandardModel:
        SCHEDULE, ASSIGN, WITHDRAW, REASSIGN, START, SUSPEND, RESUME = 'schedule', 'assign', 'withdraw', 'reassign', 'start', 'suspend', 'resume'
        PI_ABORT = 'pi_abort'
        ATE_ABORT = 'ate_abort'
        COMPLETE = 'complete'
        AUTOSKIP = 'autoskip'
        MANUALSKIP = 'manualskip'
        UNKNOWN = 'unknown'
        _ALL = (SCHEDULE, ASSIGN, WITHDRAW, REASSIGN, START, SUSPEND, RESUME, PI_ABORT, ATE_ABORT, COMPLETE, AUTOSKIP, MANUALSKIP, UNKNOWN)

        def values(self):
            return list(self._ALL)

        def decode(self, encoding):
            text = encoding.strip().lower()
            return text if text in self._ALL else self.UNKNOWN
'''), ("XLifecycleExtension.uses_standard_model", '''
    def uses_standard_model(self, log):
        return (self.extract_model(log) or '').strip() == 'standard'
'''))
P("mxml", "extension/std/XCostExtension.py", ("+", '''
    def extractor(key):
        def extract(element):
            attribute = element.get_attributes().get(key)
            return attribute.get_value() if attribute is not None else None
        return staticmethod(extract)


    class Nested(XAbstractNestedAttributeSupport):
        WORD = None

        def extract_value(self, attribute):
            return getattr(XCostExtension(), 'extract_' + self.WORD)(attribute)

        def assign_value(self, attribute, value):
            getattr(XCostExtension(), 'assign_' + self.WORD)(attribute, value)
'''), ("XCostAmount", '''
    class XCostAmount(Nested, metaclass=XCostAmountMetaclass):
        WORD = 'amount'
'''), ("XCostDriver", '''
    class XCostDriver(Nested, metaclass=XCostDriverMetaclass):
        WORD = 'driver'
'''), ("XCostType", '''
    class XCostType(Nested, metaclass=XCostTypeMetaclass):
        WORD = 'type'
'''), ("XCostExtension.extract_total", "extract_total = extractor('cost:total')"),
    ("XCostExtension.extract_amount", "extract_amount = extractor('cost:amount')"),
    ("XCostExtension.extract_driver", "extract_driver = extractor('cost:driver')"),
    ("XCostExtension.extract_type", "extract_type = extractor('cost:type')"))
P("mxml", "extension/std/XAbstractNestedAttributeSupport.py", ("XAbstractNestedAttributeSupport.extract_values", '''
    def extract_values(self, element):
        return {path[0]: value for path, value in self.extract_nested_values(element).items() if len(path) == 1}
'''), ("XAbstractNestedAttributeSupport.extract_nested_values", '''
    def extract_nested_values(self, element):
        return dict(self.__walk(element, ()))

    def __walk(self, element, path):
        for attribute in element.get_attributes().values():
            here = (*path, attribute.get_key())
            value = self.extract_value(attribute)
            if value is not None:
                yield (here, value)
            yield from self.__walk(attribute, here)
'''), ("XAbstractNestedAttributeSupport.assign_values", '''
    def assign_values(self, element, values):
        self.assign_nested_values(element, {(key,): value for key, value in values.items()})
'''), ("XAbstractNestedAttributeSupport.assign_nested_values", '''
    def assign_nested_values(self, element, amounts):
        for path, amount in amounts.items():
            target = element
            for key in path:
                attributes = target.get_attributes()
                if key not in attributes:
                    attributes[key] = XFactoryRegistry().current_default().create_attribute_literal(key, '', None)
                target = attributes[key]
            if isinstance(target, XAttribute):
                self.assign_value(target, amount)
'''))
P("mxml", "extension/std/XExtendedEvent.py", ("XExtendedEvent.clone", '''
    def clone(self):
        return type(self)(self.__original.clone())
'''), ("XExtendedEvent.wrap", '''
    @classmethod
    def wrap(cls, event):
        return cls(event)
'''))
P("mxml", "utils/XsDateTimeConversion.py", ("parse_date_time", '''
    import re
    PATTERN = re.compile(r'(.*?)(Z|[+-]\\d\\d:\\d\\d)?')


    def _split(text):
        for sign in '+-':
            head, found, tail = text.rpartition(sign)
            if found and len(tail) == 5 and tail[2] == ':':
                return head, sign, tail
        return text.replace('Z', ''), '', ''


    def parse_date_time(date_time):
        try:
            value, sign, zone = _split(date_time)
            offset = timedelta()
            if sign:
                hours, minutes = map(int, zone.split(':'))
                offset = timedelta(hours=hours, minutes=minutes)
                if sign == '-':
                    offset = -offset
            form = '%Y-%m-%dT%H:%M:%S' + ('.%f' if '.' in value else '')
            return datetime.strptime(value, form).replace(tzinfo=timezone(offset))
        except (ValueError, OverflowError):
            print('"' + date_time + '" is not a valid representation of a XES timestamp.')
            return None
'''))


# ------------------------------------------------------------------ pack "idiom": library helpers and newer syntax
P("idiom", "model/XTrace.py", ("+", "import bisect"), ("XTrace.insert_ordered", '''
    def insert_ordered(self, event):
        stamp = self._stamp(event)
        at = len(self)
        if stamp is not None:
            at = next((i + 1 for i, known in self._backwards() if known is None or known <= stamp), 0)
            if at and self._stamp(self[at - 1]) is None:
                at = len(self)
        self.insert(at, event)
        return at

    def _backwards(self):
        for i, event in reversed(list(enumerate(self))):
            yield i, self._stamp(event)

    @staticmethod
    def _stamp(event):
        match event.get_attributes().get('time:timestamp'):
            case None:
                return None
            case found:
                return found.get_value()
'''), ("XTrace.clone", '''
    def clone(self):
        copy = XTrace(self.get_attributes().clone())
        copy.extend(map(lambda event: event.clone(), self))
        return copy
'''))
P("idiom", "model/XLog.py", ("XLog.clone", '''
    def clone(self):
        clone = XLog(self.get_attributes().clone())
        clone.__extension |= self.__extension
        clone.__classifiers += self.__classifiers
        for mine, its in ((self.__globalTraceAttributes, clone.__globalTraceAttributes),
                          (self.__globalEventAttributes, clone.__globalEventAttributes)):
            its[:] = [attribute.clone() for attribute in mine]
        clone.__features = {**self.__features}
        clone.extend(trace.clone() for trace in self)
        return clone
'''), ("XLog.get_info", '''
    def get_info(self, classifier):
        return self.__cachedInfo if self.__cachedClassifier == classifier else None
'''))
P("idiom", "model/XAttributable.py", ("+", "from functools import reduce"), ("XAttributable.__init__", '''
    def __init__(self, attribute=None):
        self.__attributes = attribute or XAttributeMap()
'''), ("XAttributable.get_extensions", '''
    def get_extensions(self):
        def gather(found, attribute):
            own = {attribute.get_extension()} - {None}
            return found | own | attribute.get_extensions()
        return reduce(gather, self.__attributes.values(), set())
'''), ("XAttributable.has_attributes", '''
    def has_attributes(self):
        return any(True for _ in self.__attributes)
'''))
P("idiom", "model/XAttributeCollection.py", ("XAttributeCollection.get_collection", '''
    def get_collection(self):
        return [*self.__collection] if self.__collection is not None else self.get_attributes().values()
'''), ("XAttributeCollection.__str__", '''
    def __str__(self):
        return f"[{','.join(f'{item.get_key()}:{item}' for item in self.get_collection())}]"
'''))
P("idiom", "model/XAttributeMap.py", ("XAttributeMap.__init__", '''
    def __init__(self, dictionary=None):
        super().__init__(dictionary or {})
'''), ("XAttributeMap.clone", '''
    def clone(self):
        return XAttributeMap({key: attribute.clone() for key, attribute in self.items()})
'''), ("XAttributeMap.is_empty", '''
    def is_empty(self):
        return not self
'''))
P("idiom", "utils/XsDateTimeConversion.py", ("+", '''
import re
from collections import namedtuple
_Zone = namedtuple('_Zone', 'hours minutes')
_TAIL = re.compile(r'(?P<hours>[+-]\\d\\d):(?P<minutes>\\d\\d)')
'''), ("parse_date_time", '''
def _zone_of(text):
    if 'Z' in text:
        return text.replace('Z', ''), _Zone(0, 0)
    if '+' in text:
        at = text.index('+')
    elif '-' in text[-7:]:
        at = text.rindex('-')
    else:
        return text, _Zone(0, 0)
    hours, minutes = text[at:].split(':')
    sign = -1 if '-' in hours else 1
    return text[:at], _Zone(int(hours), sign * int(minutes))


def parse_date_time(date_time):
    try:
        value, zone = _zone_of(date_time)
        shift = timezone(timedelta(**zone._asdict()))
        fraction = '.%f' * ('.' in value)
        return datetime.strptime(value, '%Y-%m-%dT%H:%M:%S' + fraction).replace(tzinfo=shift)
    except (OverflowError, ValueError):
        print(f'"{date_time}" is not a valid representation of a XES timestamp.')
        return None
'''))
P("idiom", "utils/XTimer.py", ("XTimer.format_duration", '''
    @staticmethod
    def format_duration(millis):
        def words(left):
            for size, name in ((86400000, 'days'), (3600000, 'hours'), (60000, 'minutes'), (1000, 'seconds')):
                if left > size:
                    yield f'{left // size} {name}'
                    left %= size
            yield f'{left} milliseconds'
        return ', '.join(words(millis))
'''), ("XTimer.get_duration", '''
    def get_duration(self):
        end = self.__stop
        if end == self.__start:
            end = time.time() * 1000
        return end - self.__start
'''))
P("idiom", "utils/CompareUtils.py", ("compare_to_string", '''
def compare_to_string(string_1, string_2):
    return (string_1 > string_2) - (string_1 < string_2)
'''), ("compare_to_boolean", '''
def compare_to_boolean(bool_1, bool_2):
    match bool_1, bool_2:
        case (True, False):
            return 1
        case (False, True):
            return -1
    return 0
'''), ("compare_to_number", '''
compare_to_number = compare_to_string
'''))
P("idiom", "utils/XTokenHelper.py", ("+", "from itertools import chain, cycle"), ("XTokenHelper.extract_tokens", '''
    @staticmethod
    def extract_tokens(token_string):
        ways = cycle((str.split, lambda part: [part]))
        parts = (way(part) for way, part in zip(ways, token_string.split("'")))
        return [token for token in chain.from_iterable(parts) if token.strip()]
'''), ("XTokenHelper.format_token", '''
    @staticmethod
    def format_token(token):
        return ' '.join((f"'{word}'" if ' ' in word else word) for word in token if word.strip(' '))
'''))
P("idiom", "id/XID.py", ("+", '''
import functools
import operator


def _by(relation):
    def compare(self, other):
        return relation(self.compare_to(other), 0)
    return compare
'''), ("XID.__init__", '''
    def __init__(self, uuid_arg=None):
        self.__uuid = uuid_arg or uuid.uuid4()
'''), ("XID.__lt__", '''
    __lt__ = _by(operator.lt)
'''), ("XID.__le__", '''
    __le__ = _by(operator.le)
'''), ("XID.__gt__", '''
    __gt__ = _by(operator.gt)
'''), ("XID.__ge__", '''
    __ge__ = _by(operator.ge)
'''), ("XID.__eq__", '''
    def __eq__(self, other):
        match other:
            case XID():
                return self.__uuid == other.get_uuid()
        return False
'''))
P("idiom", "classification/XEventAttributeClassifier.py", ("XEventAttributeClassifier.get_class_identity", '''
    def get_class_identity(self, event):
        def part(key):
            if (found := event.get_attributes().get(key)):
                return str(found)
            return ''
        return '&&'.join(map(part, self.__keys))
'''), ("XEventAttributeClassifier.compare_to", '''
    def compare_to(self, obj):
        mine, theirs = (self.__name, *self.__keys), (obj.name(), *obj.get_defining_attribute_keys())
        if mine[0] == theirs[0] and len(mine) != len(theirs):
            return len(mine) - len(theirs)
        return next((compare_to_string(a, b) for a, b in zip(mine, theirs) if a != b), 0)
'''))
P("idiom", "classification/XEventClasses.py", ("+", "from functools import singledispatchmethod"), ("XEventClasses.register", '''
    @singledispatchmethod
    def register(self, element):
        raise TypeError('The argument must be a XElement or string')

    @register.register(XElement)
    def _(self, element):
        for part in element:
            self.register(part)

    @register.register(XEvent)
    def _(self, event):
        self.register(self.__classifier.get_class_identity(event))

    @register.register(str)
    def _(self, identity):
        if identity not in self.__class_map:
            self.__class_map[identity] = XEventClass(identity, len(self.__class_map))
        self.__class_map[identity].increment_size()
'''), ("XEventClasses.harmonize_indices", '''
    def harmonize_indices(self):
        def renumbered():
            for position, known in enumerate(sorted(self.__class_map.values())):
                fresh = XEventClass(known.get_id(), position)
                fresh.set_size(known.size())
                yield fresh.get_id(), fresh
        self.__class_map = dict(renumbered())
'''), ("XEventClasses.get_by_index", '''
    def get_by_index(self, index):
        return next(filter(lambda known: known.get_index() == index, self.__class_map.values()), None)
'''))
P("idiom", "extension/XExtensionManager.py", ("+", '''
from contextlib import ExitStack, suppress
from pathlib import Path
import shutil
'''), ("XExtensionManager.register", '''
    def register(self, extension):
        self.__extension_map[extension.get_uri()] = extension
        match self.get_index(extension):
            case -1:
                self.__extension_list.append(extension)
            case at:
                self.__extension_list[at] = extension
'''), ("XExtensionManager.get_by_name", '''
    def get_by_name(self, name):
        return self.__first(lambda known: known.get_name() == name)

    def __first(self, wanted):
        for known in filter(wanted, self.__extension_list):
            return known
'''), ("XExtensionManager.get_by_prefix", '''
    def get_by_prefix(self, prefix):
        return self.__first(lambda known: known.get_prefix() == prefix)
'''), ("XExtensionManager.get_index", '''
    def get_index(self, extension):
        with suppress(ValueError):
            return self.__extension_list.index(extension)
        return -1
'''), ("XExtensionManager.register_standard_extensions", '''
    def register_standard_extensions(self):
        for make in (XConceptExtension, XCostExtension, XIdentityExtension, XLifecycleExtension, XMicroExtension,
                     XOrganizationalExtension, XSemanticExtension, XTimeExtension):
            self.register(make())
'''), ("XExtensionManager.cache_extension", '''
    @staticmethod
    def cache_extension(uri):
        name = uri.geturl().removesuffix('/').rpartition('/')[2]
        if not name.endswith('.xesext'):
            name += '.xesext'
        target = Path(XRuntimeUtils().get_extension_cache_folder()) / name
        try:
            with ExitStack() as stack:
                source = stack.enter_context(request.urlopen(uri.geturl()))
                copy = stack.enter_context(target.open('wb'))
                while chunk := source.read(1024):
                    copy.write(chunk)
            XLogging().log(f"Cached XES extension \\\\'{uri.geturl()}\\\\'", XLogging.Importance.DEBUG)
        except OSError as problem:
            print(f'I/O error({problem.errno}): {problem.strerror}')
'''), ("XExtensionManager.load_extension_cache", '''
    def load_extension_cache(self):
        oldest = int(round(time.time() * 1000)) - 2592000000
        files = [path for path in Path(XRuntimeUtils().get_extension_cache_folder()).iterdir() if path.is_file()]
        if not files:
            XLogging().log('Extension caching disabled (Could not access cache directory)!', XLogging.Importance.WARNING)
            return
        for path in files:
            if path.suffix.lower() != '.xesext' and not path.name.lower().endswith('.xesext'):
                continue
            if os.path.getmtime(path) * 1000 < oldest:
                path.unlink(missing_ok=True)
                continue
            try:
                self.__adopt(XExtensionParser.parse(str(path)))
            except Exception as problem:
                print(f'Exception error: {problem}')

    def __adopt(self, extension):
        uri = extension.get_uri()
        if uri in self.__extension_map:
            XLogging().log(f"Skipping cached XES extension '{uri.geturl()}' (already defined)", XLogging.Importance.DEBUG)
            return
        self.__extension_map[uri] = extension
        self.__extension_list.append(extension)
        XLogging().log(f"Loaded XES extension '{uri.geturl()}' from cache", XLogging.Importance.DEBUG)
'''))
P("idiom", "extension/XExtensionParser.py", ("XExtensionParser.XExtensionHandler.startElement", '''
        def startElement(self, name, attributes):
            match name.lower():
                case 'xesextension':
                    title, prefix, uri = map(attributes.getValue, ('name', 'prefix', 'uri'))
                    self.__extension = XExtension(title, prefix, parse.urlparse(uri))
                case 'log' | 'trace' | 'event' | 'meta' as level:
                    self.__xAttributes = getattr(self.__extension, f'get_{level}_attributes')()
                case 'alias' if self.__currentAttribute is not None:
                    XGlobalAttributeNameMap().register_mapping(
                        attributes.getValue('mapping'), self.__currentAttribute.get_key(), attributes.getValue('name'))
                case kind:
                    self.__define(kind, attributes)

        def __define(self, kind, attributes):
            suffix, default = {'string': ('literal', lambda: 'DEFAULT'), 'date': ('timestamp', lambda: 0), 'int': ('discrete', lambda: 0),
                               'float': ('continuous', lambda: 0.0), 'boolean': ('boolean', lambda: False),
                               'id': ('id', XIDFactory.create_id)}.get(kind, (None, None))
            if suffix is None:
                return
            key = ':'.join((self.__extension.get_prefix(), attributes.getValue('key')))
            self.__currentAttribute = getattr(self.__factory, 'create_attribute_' + suffix)(key, default(), self.__extension)
            self.__xAttributes.add(self.__currentAttribute)
'''))
P("idiom", "extension/std/XAbstractNestedAttributeSupport.py", ("XAbstractNestedAttributeSupport.extract_values", '''
    def extract_values(self, element):
        return {path[0]: value for path, value in self.extract_nested_values(element).items() if not path[1:]}
'''), ("XAbstractNestedAttributeSupport.extract_nested_values", '''
    def extract_nested_values(self, element):
        return dict(self.__walk(element, ()))

    def __walk(self, element, path):
        for attribute in element.get_attributes().values():
            here = path + (attribute.get_key(),)
            if (value := self.extract_value(attribute)) is not None:
                yield here, value
            yield from self.__walk(attribute, here)
'''), ("XAbstractNestedAttributeSupport.__extract_nested_values_private__", '''
    def __extract_nested_values_private__(self, element, nested_values, keys):
        nested_values.update(self.__walk(element, tuple(keys)))
'''), ("XAbstractNestedAttributeSupport.assign_values", '''
    def assign_values(self, element, values):
        self.assign_nested_values(element, {(key,): value for key, value in values.items()})
'''), ("XAbstractNestedAttributeSupport.assign_nested_values", '''
    def assign_nested_values(self, element, amounts):
        for path, amount in amounts.items():
            target = element
            for key in path:
                target = self.__child(target, key)
            if isinstance(target, XAttribute):
                self.assign_value(target, amount)

    @staticmethod
    def __child(element, key):
        children = element.get_attributes()
        if key not in children:
            children[key] = XFactoryRegistry().current_default().create_attribute_literal(key, '', None)
        return children[key]
'''))
P("idiom", "utils/SingletonClassGenerator.py", ("*", '''
class _Single(type):
    def __init_subclass__(mcs, **kw):
        super().__init_subclass__(**kw)
        mcs.instance = None

    def __call__(cls, *args, **kw):
        mcs = type(cls)
        if not mcs.instance:
            mcs.instance = super().__call__(*args, **kw)
        return mcs.instance


class XCostAmountMetaclass(_Single): pass
class XCostDriverMetaclass(_Single): pass
class XCostTypeMetaclass(_Single): pass
class XCostExtensionMetaclass(_Single): pass
class XConceptExtensionMetaclass(_Single): pass
class XExtensionManagerMetaclass(_Single): pass
class XExtensionMetaclass(_Single): pass
class XLifecycleExtensionMetaclass(_Single): pass
class XIdentityExtensionMetaclass(_Single): pass
class XFactoryRegistryMetaclass(_Single): pass
class XIDFactoryMetaclass(_Single): pass
class XGlobalAttributeNameMapMetaclass(_Single): pass
class XMicroExtensionMetaclass(_Single): pass
class XTimeExtensionMetaclass(_Single): pass
class XOrganizationalExtensionMetaclass(_Single): pass
class XSemanticExtensionMetaclass(_Single): pass
class XSerializerRegistryMetaclass(_Single): pass
class XParserRegistryMetaclass(_Single): pass
'''))
P("idiom", "data_in/XesXmlGZIPParser.py", ("+", "import contextlib"), ("XesXmlGZIPParser.can_parse", '''
    def can_parse(self, file):
        return any(self.ends_with_ignore_case(file, suffix) for suffix in ('.xez', '.xes.gz'))
'''), ("XesXmlGZIPParser.parse", '''
    def parse(self, file):
        with self.__unpacked(file) as stream:
            return super().parse(stream)

    @contextlib.contextmanager
    def __unpacked(self, file):
        path = file.name
        file.close()
        with gzip.open(path) as stream:
            yield stream
'''))
P("idiom", "data_in/XUniversalParser.py", ("XUniversalParser.can_parse", '''
    @staticmethod
    def can_parse(file):
        return any(map(lambda parser: parser.can_parse(file), XParserRegistry().get_available()))
'''), ("XUniversalParser.parse", '''
    @staticmethod
    def parse(file):
        def attempts():
            for parser in XParserRegistry().get_available():
                if not parser.can_parse(file.name):
                    continue
                try:
                    yield parser.parse(file)
                except Exception as error:
                    print(error)
        for result in attempts():
            return result
        raise Exception('No suitable parser could be found!')
'''))
P("idiom", "data_in/XesXmlParser.py", ("XesXmlParser.XesXmlHandler.startElement", '''
        def startElement(self, element_name, attributes):
            tag = element_name.lower()
            getattr(self, '_start_' + tag, lambda *_: self._start_attribute(tag, attributes))(attributes)

        def _start_event(self, attributes):
            self.__event = self.__factory.create_event()
            self.__attributable_stack.append(self.__event)

        def _start_trace(self, attributes):
            self.__trace = self.__factory.create_trace()
            self.__attributable_stack.append(self.__trace)

        def _start_log(self, attributes):
            self.__log = log = self.__factory.create_log()
            for name in filter(lambda name: name.startswith(('xes.', 'openxes.')), attributes.getNames()):
                log.set_features(name, attributes.get(name))
            self.__attributable_stack.append(log)

        def _start_extension(self, attributes):
            prefix, uri = attributes.get('prefix'), attributes.get('uri')
            found = None
            if prefix is not None:
                found = XExtensionManager().get_by_prefix(prefix)
            elif uri is not None:
                found = XExtensionManager().get_by_uri(parse.urlparse(uri))
            if found is None:
                print(f'Unknown extension: {uri}')
            else:
                self.__log.get_extensions().add(found)

        def _start_global(self, attributes):
            match attributes.get('scope').lower():
                case 'trace':
                    self.__globals = self.__log.get_global_trace_attributes()
                case 'event':
                    self.__globals = self.__log.get_global_event_attributes()

        def _start_classifier(self, attributes):
            name, keys = attributes.get('name'), attributes.get('keys')
            if name and keys:
                self.__log.get_classifiers().append(XEventAttributeClassifier(name, XTokenHelper.extract_tokens(keys)))

        def _start_attribute(self, tag, attributes):
            key, value = attributes.get('key', 'UNKNOWN'), attributes.get('value', '')
            prefix, colon, _ = key.partition(':')
            extension = XExtensionManager().get_by_prefix(prefix) if colon else None
            make = self.__factory
            match tag:
                case 'string':
                    made = make.create_attribute_literal(key, value, extension)
                case 'date':
                    moment = parse_date_time(value)
                    made = moment and make.create_attribute_timestamp(key, moment, extension)
                case 'int':
                    made = make.create_attribute_discrete(key, int(value), extension)
                case 'float':
                    made = make.create_attribute_continuous(key, float(value), extension)
                case 'boolean':
                    made = make.create_attribute_boolean(key, value.lower() == 'true', extension)
                case 'id':
                    made = make.create_attribute_id(key, XID.parse(value), extension)
                case 'list' | 'container':
                    made = getattr(make, f'create_attribute_{tag}')(key, extension)
                case _:
                    return
            for stack in (self.__attribute_stack, self.__attributable_stack):
                stack.append(made)
'''))
P("idiom", "data_out/XesXmlSerializer.py", ("+", '''
from functools import singledispatch
from contextlib import contextmanager


@singledispatch
def tag_of(attribute):
    return None


for _kind, _tag in ((XAttributeDiscrete, 'int'), (XAttributeLiteral, 'string'), (XAttributeContinuous, 'float'),
                    (XAttributeBoolean, 'boolean'), (XAttributeID, 'id'), (XAttributeList, 'list'),
                    (XAttributeContainer, 'container'), (XAttributeTimestamp, 'date')):
    tag_of.register(_kind, lambda attribute, tag=_tag: tag)


@contextmanager
def timed(what):
    XLogging().log('Start serializing log to ' + what, XLogging.Importance.DEBUG)
    start = time.time() * 1000
    yield
    XLogging().log(f'finished serializing log ({time.time() * 1000 - start} msec.)', XLogging.Importance.DEBUG)
'''), ("XesXmlSerializer.serialize", '''
    COMMENTS = ('This file has been generated with the OpenXES library. It conforms',
                'to the XML serialization of the XES standard for log storage and',
                'management.', 'XES standard version: 1.0', 'OpenXES library version: 1.0RC7',
                'OpenXES is available from http://www.openxes.org/')

    def serialize(self, log, out, in_bytes=False):
        with timed('XES.XML'):
            document = minidom.parseString(Et.tostring(self._tree(log), 'utf-8'))
            first = document.childNodes[0]
            for line in self.COMMENTS:
                document.insertBefore(document.createComment(line), first)
            text = document.toprettyxml('\\t')
            out.write(text.encode() if in_bytes else text)

    def _tree(self, log):
        root = Et.Element('log', {'xes.version': '1.0', 'xes.features': 'nested-attributes', 'openxes.version': '1.0RC7'})
        for known in log.get_extensions():
            Et.SubElement(root, 'extension', name=known.get_name(), prefix=known.get_prefix(), uri=known.get_uri().geturl())
        for scope in ('trace', 'event'):
            self.add_global_attributes(root, scope, getattr(log, f'get_global_{scope}_attributes')())
        for known in log.get_classifiers():
            if isinstance(known, XEventAttributeClassifier):
                Et.SubElement(root, 'classifier', {'name': known.name(),
                                                   'keys': XTokenHelper.format_token(known.get_defining_attribute_keys())})
        self.add_attributes(root, log.get_attributes().values())
        for trace in log:
            below = Et.SubElement(root, 'trace')
            self.add_attributes(below, trace.get_attributes().values())
            for event in trace:
                self.add_attributes(Et.SubElement(below, 'event'), event.get_attributes().values())
        return root
'''), ("XesXmlSerializer.add_attributes", '''
    def add_attributes(self, tag, attributes):
        for attribute in attributes:
            node = Et.SubElement(tag, tag_of(attribute), key=attribute.get_key())
            nested = attribute.get_attributes().values()
            if isinstance(attribute, XAttributeCollection):
                nested = attribute.get_collection()
            else:
                node.set('value', str(attribute))
            if nested:
                self.add_attributes(node, nested)
'''))
P("idiom", "info/XLogInfo.py", ("+", '''
from dataclasses import dataclass, field


@dataclass
class _Counts:
    events: int = 0
    traces: int = 0
    bounds: XTimeBounds = field(default_factory=XTimeBounds)
    by_trace: dict = field(default_factory=dict)
'''), ("XLogInfo.create", '''
    @classmethod
    def create(cls, log, default_classifier=None, classifiers=None):
        return cls(log, cls.STANDARD_CLASSIFIER if default_classifier is None else default_classifier, classifiers)
'''), ("XLogInfo.__init__", '''
    def __init__(self, log, default_classifier, classifiers):
        self.__log = log
        self.__default_classifier = default_classifier
        wanted = [*(classifiers or ()), default_classifier, self.NAME_CLASSIFIER, self.RESOURCE_CLASSIFIER,
                  self.LIFECYCLE_TRANSITION_CLASSIFIER]
        self.__event_classes = {classifier: XEventClasses(classifier) for classifier in wanted}
        self.__counts = _Counts()
        (self.__log_attribute_info, self.__trace_attribute_info, self.__event_attribute_info,
         self.__meta_attribute_info) = (XAttributeInfo() for _ in range(4))
        self.setup()
'''), ("XLogInfo.setup", '''
    def setup(self):
        counts, groups = self.__counts, self.__event_classes.values()
        self.register_attributes(self.__log_attribute_info, self.__log)
        for counts.traces, trace in enumerate(self.__log, 1):
            self.register_attributes(self.__trace_attribute_info, trace)
            bounds = XTimeBounds()
            for event in trace:
                counts.events += 1
                self.register_attributes(self.__event_attribute_info, event)
                [group.register(event) for group in groups]
                bounds.register(event)
            counts.by_trace[trace] = bounds
            counts.bounds.register(bounds)
        for group in groups:
            group.harmonize_indices()
'''), ("XLogInfo.get_number_of_event", '''
    def get_number_of_event(self):
        return self.__counts.events
'''), ("XLogInfo.get_number_of_traces", '''
    def get_number_of_traces(self):
        return self.__counts.traces
'''), ("XLogInfo.get_log_time_boundaries", '''
    def get_log_time_boundaries(self):
        return self.__counts.bounds
'''), ("XLogInfo.get_trace_time_boundaries", '''
    def get_trace_time_boundaries(self, trace):
        return self.__counts.by_trace.get(trace)
'''))
P("idiom", "info/XGlobalAttributeNameMap.py", ("+", "from collections import defaultdict"), ("XGlobalAttributeNameMap.get_mapping", '''
    def get_mapping(self, name):
        if name in self.__mappings:
            return self.__mappings[name]
        return self.__mappings.setdefault(name, XAttributeNameMap(name))
'''), ("XGlobalAttributeNameMap.map_safely", '''
    def map_safely(self, attribute, mapping):
        if isinstance(mapping, str):
            mapping = self.__mappings.get(mapping, self.__standard_mapping)
        if isinstance(attribute, XAttribute):
            attribute = attribute.get_key()
        if not isinstance(attribute, str) or not isinstance(mapping, XAttributeNameMap):
            return None
        answers = (table.map(attribute) for table in (mapping, self.__standard_mapping))
        return next((alias for alias in answers if alias is not None), attribute)
'''))
P("idiom", "info/XTimeBounds.py", ("XTimeBounds.register", '''
    def register(self, element):
        match element:
            case XTimeBounds():
                self.register(element.get_start_date())
                self.register(element.get_end_date())
            case XEvent():
                self.register(XTimeExtension().extract_timestamp(element))
            case datetime() if self.__first is None:
                self.__first = self.__last = element
            case datetime():
                self.__first, self.__last = min(self.__first, element), max(self.__last, element)
'''), ("XTimeBounds.is_within", '''
    def is_within(self, date):
        return self.__first is not None and (date in (self.__first, self.__last) or self.__first < date < self.__last)
'''))
P("idiom", "utils/XAttributeUtils.py", ("+", '''
_KINDS = {XAttributeDiscrete: 'DISCRETE', XAttributeLiteral: 'LITERAL', XAttributeContinuous: 'CONTINUOUS',
          XAttributeBoolean: 'BOOLEAN', XAttributeID: 'ID', XAttributeList: 'LIST', XAttributeContainer: 'CONTAINER',
          XAttributeTimestamp: 'TIMESTAMP'}
'''), ("XAttributeUtils.get_type", '''
    @staticmethod
    def get_type(attribute):
        try:
            return next(kind for kind in _KINDS if isinstance(attribute, kind))
        except StopIteration:
            raise TypeError('Unexpected attribute type!') from None
'''), ("XAttributeUtils.get_type_string", '''
    @staticmethod
    def get_type_string(attribute):
        return XAttributeType[_KINDS[XAttributeUtils.get_type(attribute)]].name
'''), ("XAttributeUtils.derive_prototype", '''
    @staticmethod
    def derive_prototype(instance):
        prototype = instance.clone()
        match prototype:
            case XAttributeList() | XAttributeContainer():
                pass
            case XAttributeLiteral():
                prototype.set_value('UNKNOWN')
            case XAttributeBoolean():
                prototype.set_value(True)
            case XAttributeContinuous():
                prototype.set_value(0.0)
            case XAttributeDiscrete():
                prototype.set_value(0)
            case XAttributeTimestamp():
                prototype.set_value_millis(0)
            case XAttributeID():
                prototype.set_value(XIDFactory().create_id())
            case _:
                raise TypeError('Unexpected attribute type!')
        return prototype
'''))
P("idiom", "utils/XRuntimeUtils.py", ("+", '''
from functools import cached_property, lru_cache
from pathlib import Path
'''), ("XRuntimeUtils.__init__", '''
    @cached_property
    def _platform(self):
        return sys.platform
'''), ("XRuntimeUtils.determine_os", '''
    def determine_os(self):
        return self._platform
'''), ("XRuntimeUtils.get_extension_cache_folder", '''
    def get_extension_cache_folder(self):
        folder = Path(self.get_support_folder()) / 'ExtensionCache'
        folder.mkdir(parents=True, exist_ok=True)
        return str(folder)
'''))
P("idiom", "extension/std/XExtendedEvent.py", ("+", '''
from functools import partialmethod


def _read(kind, name):
    def read(self):
        return getattr(kind(), 'extract_' + name)(self._XExtendedEvent__original)
    return read


def _write(kind, name):
    def write(self, value):
        getattr(kind(), 'assign_' + name)(self._XExtendedEvent__original, value)
    return write
'''), ("XExtendedEvent.get_name", "get_name = _read(XConceptExtension, 'name')"),
  ("XExtendedEvent.set_name", '''
    def set_name(self, name):
        _write(XConceptExtension, 'name')(self, name)
'''), ("XExtendedEvent.get_role", "get_role = _read(XOrganizationalExtension, 'role')"),
  ("XExtendedEvent.get_group", "get_group = _read(XOrganizationalExtension, 'group')"),
  ("XExtendedEvent.__eq__", '''
    def __eq__(self, other):
        return isinstance(other, XExtendedEvent) and other.get_id() == self.__id
'''))
