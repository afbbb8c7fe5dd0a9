# Executed by spec.py: prop(id, title, statement, over, quantifier text, why tests can't, files, mechanism, ...)
NO_TEST = ("The ten tests only construct extensions, look them up in the manager and run the command line; ")

prop("C06", "Cloning copies everything and shares nothing mutable",
     "Cloning an attribute (of any kind, with nested attributes to any depth, and with the members of lists and containers), "
     "an attribute map, an event, a trace or a log yields a distinct object with the same keys, values, extensions, nested "
     "attributes, members, classifiers, extensions and global attributes. Afterwards no change made through the public "
     "operations to the clone is visible in the original, and none made to the original is visible in the clone.",
     ["inputs", "programs"],
     "All attribute kinds x nesting x values, all elements, all subsequent mutations of either copy.",
     NO_TEST + "no test clones anything, and sharing only shows after a later mutation of a nested object.",
     ["model/XAttribute.py", "model/XAttributeMap.py", "model/XAttributeCollection.py", "model/XEvent.py", "model/XTrace.py",
      "model/XLog.py", "model/XAttributeTimestamp.py", "model/XAttributeID.py", "id/XID.py"],
     [("attribute clone", "model/XAttribute.py"), ("map clone", "model/XAttributeMap.py"), ("log clone", "model/XLog.py")],
     ["clone() of the model classes"])

prop("C07", "Comparison, equality and hashing of model objects are coherent",
     "Attributes of one kind are equal exactly when key and value are equal (for lists and containers: the same kind and key); "
     "comparison is antisymmetric, orders by key and then by value, and the operators <, <=, >, >=, == and != all agree with "
     "its sign. Identifiers, events, traces, extensions, classifiers and event classes have an equality that is reflexive, "
     "symmetric and the negation of !=. Equal objects have equal hashes.",
     ["inputs"], "All pairs of objects of the comparable classes, all keys and values.",
     NO_TEST + "no test compares two model objects, and coherence quantifies over pairs of unbounded values.",
     ["model/XAttribute.py", "model/XAttributeLiteral.py", "model/XAttributeBoolean.py", "model/XAttributeContinuous.py",
      "model/XAttributeDiscrete.py", "model/XAttributeTimestamp.py", "model/XAttributeID.py", "model/XAttributeCollection.py",
      "id/XID.py", "model/XEvent.py", "model/XTrace.py", "extension/XExtension.py", "utils/CompareUtils.py",
      "classification/XEventClass.py", "classification/XEventAttributeClassifier.py"],
     [("three-way comparison", "utils/CompareUtils.py"), ("attribute equality", "model/XAttribute.py")],
     ["==, !=, <, hash() and compare_to of the model classes"])

prop("C12", "Process-wide objects exist once per class and keep their state",
     "Constructing a standard extension, the extension manager, the extension parser, a registry, the global attribute name "
     "map, the identifier factory or a cost support object any number of times, in any order relative to the others, always "
     "yields the one instance of exactly that class. Constructing it again neither resets nor replaces its state, and two "
     "different classes never share an instance.",
     ["histories"], "All orders of construction of any two process-wide objects, from a cold or a warm process.",
     "The tests construct each extension in a fixed order in one process; the order and the cold start are not varied.",
     ["utils/SingletonClassGenerator.py", "extension/XExtensionManager.py", "extension/XExtensionParser.py",
      "factory/XFactoryRegistry.py", "data_in/XParserRegistry.py", "data_out/XSerializerRegistry.py", "id/XIDFactory.py",
      "info/XGlobalAttributeNameMap.py", "extension/std/XAbstractNestedAttributeSupport.py"],
     [("singleton metaclass", "utils/SingletonClassGenerator.py")], ["constructor calls"])

prop("C13", "A registry offers what was registered and one current default",
     "A registry contains exactly the instances registered with it (each once), its default is the instance last set as "
     "default, or else the first one registered, and setting a default also registers it. Registering never replaces a "
     "default; registries do not affect each other. The factory, parser and serializer registries initially offer the "
     "standard factory, and all XES and MXML parsers and serializers with an XES one as the default.",
     ["histories"], "All sequences of registering and setting defaults.",
     NO_TEST + "no test touches a registry.",
     ["utils/XRegistry.py", "factory/XFactoryRegistry.py", "data_in/XParserRegistry.py", "data_out/XSerializerRegistry.py"],
     [("registry", "utils/XRegistry.py")], ["register, set_current_default, current_default, get_available, contains"])

prop("C14", "The factory creates what it is asked for",
     "Every creation operation of the factory returns a new object of the requested kind whose key, value, extension, "
     "identifier and attributes are exactly the ones given, and without attributes a fresh empty map. Objects created "
     "separately share no mutable state, and events created without an identifier get distinct identifiers.",
     ["inputs", "programs"], "All creation operations, all attribute kinds and values, all combinations of optional arguments.",
     NO_TEST + "the factory is only used indirectly with fixed values.",
     ["factory/XFactory.py", "factory/XFactoryRegistry.py", "model/XEvent.py", "model/XTrace.py", "model/XLog.py"],
     [("create operations", "factory/XFactory.py")], ["XFactory.create_*"])

prop("C16", "Attribute statistics match the registered attributes",
     "After any sequence of registrations an attribute summary reports, per key, per type and per extension (including none), "
     "exactly the attributes registered: the set of keys, one prototype per key, the absolute frequency as the number of "
     "registrations, and the relative frequency as that number divided by the total. Prototypes are detached from the "
     "registered attributes: changing either does not change the other.",
     ["inputs", "histories"], "All sequences of registrations of attributes of every kind, with repeated keys and extensions.",
     NO_TEST + "no test builds an attribute summary.",
     ["info/XAttributeInfo.py", "utils/XAttributeUtils.py"],
     [("registration", "info/XAttributeInfo.py"), ("prototype derivation", "utils/XAttributeUtils.py")],
     ["XAttributeInfo queries"])

prop("C17", "A log summary counts exactly what the log contains",
     "A log summary reports the number of traces and events of the log, the time bounds of the log and of each trace as the "
     "earliest and latest timestamp among its events, the attribute statistics of the log, trace, event and meta (nested) "
     "levels over all attributes on that level, and for every classifier given the event classes with the number of events "
     "of each. Empty logs, empty traces and events without timestamp are counted and contribute no time.",
     ["inputs"], "All logs: any traces, events, attribute kinds, missing values and sets of classifiers.",
     NO_TEST + "no test builds a log summary.",
     ["info/XLogInfo.py", "info/XLogInfoFactory.py", "info/XTimeBounds.py", "info/XAttributeInfo.py",
      "classification/XEventClasses.py"],
     [("summary construction", "info/XLogInfo.py")], ["XLogInfoFactory.create_log_info and the XLogInfo queries"])

prop("C18", "Event classes partition the registered events by identity",
     "After registering any events, traces, logs or class identities, two registered events are in the same event class "
     "exactly when their identities under the classifier coincide, and the size of a class is the number of registrations "
     "with that identity. Looking a class up by identity, by event or by index gives the same class, and nothing for one "
     "never registered; after harmonising, the indices are 0..n-1 in the sorted order of the identities.",
     ["inputs", "histories"], "All sequences of registrations, with coinciding and different identities.",
     NO_TEST + "no test builds event classes.",
     ["classification/XEventClasses.py", "classification/XEventClass.py"],
     [("registration and indices", "classification/XEventClasses.py")], ["XEventClasses"])

prop("C19", "A classifier's identity joins the defining attributes in key order",
     "The class identity of an event is the text of the values of the classifier's defining attributes joined by '&&' in the "
     "classifier's key order, with the empty text for a missing attribute keeping its place; two events are of the same class "
     "exactly when these texts are equal. A combined classifier's defining keys are the keys of its parts, each once.",
     ["inputs"], "All key lists, all attribute kinds and values, all subsets of missing attributes.",
     NO_TEST + "no test classifies an event.",
     ["classification/XEventAttributeClassifier.py", "classification/XEventAndClassifier.py",
      "classification/XEventNameClassifier.py", "classification/XEventLifeTransClassifier.py",
      "classification/XEventResourceClassifier.py"],
     [("identity", "classification/XEventAttributeClassifier.py")], ["get_class_identity, same_event_class, get_defining_attribute_keys"])

prop("C20", "Time bounds are the earliest and latest registered time",
     "After registering any sequence of dates, events and other bounds, in any order, the start is the earliest and the end "
     "the latest of the times they carry; events without timestamp and empty bounds contribute nothing. A date or bounds is "
     "reported as within exactly when it lies between start and end, inclusive; bounds with nothing registered contain "
     "nothing and have no start or end.",
     ["inputs", "histories"], "All sequences of registrations in any order of dates.",
     NO_TEST + "no test registers a time.",
     ["info/XTimeBounds.py"], [("registration", "info/XTimeBounds.py")], ["XTimeBounds"])

prop("C21", "Ordered insertion keeps a trace sorted by time",
     "Inserting an event by time into a trace whose events all carry timestamps in time order places it after every event that "
     "is not later than it and before every later one; an event without timestamp goes to the end. In every case the index "
     "returned is the one at which the event was placed, and the other events keep their order.",
     ["inputs", "histories"], "All traces, with events without timestamp in any place, all times of the inserted event.",
     NO_TEST + "no test inserts by time.",
     ["model/XTrace.py", "extension/std/XTimeExtension.py"], [("ordered insertion", "model/XTrace.py")], ["XTrace.insert_ordered"])

prop("C22", "Attribute name mappings return the registered alias",
     "Mapping an attribute or key in a named mapping gives the alias registered last for that key in that mapping and nothing "
     "from another mapping or key. Safe mapping never fails and gives the alias of the requested mapping, else that of the "
     "standard (English) mapping, else the key itself, whether the mapping is given by name or as an object and whether or "
     "not it exists.",
     ["inputs", "histories"], "All mapping names, keys and aliases, all orders of registration.",
     NO_TEST + "no test uses a name mapping.",
     ["info/XGlobalAttributeNameMap.py", "info/XAttributeNameMap.py"],
     [("lookup with fallback", "info/XGlobalAttributeNameMap.py")], ["XGlobalAttributeNameMap"])

prop("C29", "A timer reports elapsed milliseconds and formats them losslessly",
     "The duration of a timer is the time in milliseconds from its creation, or its last start, to its last stop, or to now "
     "while it runs; timers do not affect each other. The formatted text of a duration names days, hours, minutes, seconds and "
     "milliseconds whose sum is that duration.",
     ["inputs", "histories"], "All clock readings, all sequences of start and stop, all durations.",
     NO_TEST + "no test uses the timer, and the clock is not controlled.",
     ["utils/XTimer.py"], [("duration", "utils/XTimer.py")], ["XTimer"])

MODEL = ["model/XAttribute.py", "model/XAttributeMap.py", "model/XLog.py", "model/XTrace.py", "model/XEvent.py"]
prop("C01", "Writing a log to XES and reading it back gives the same log",
     "Serialising any log to XES and parsing the result gives one log with the same traces in the same order, the same events "
     "in the same order in each, and on the log, every trace and every event the same attributes: keys, kinds, values "
     "(timestamps to the millisecond, with their UTC offset), the extension named by the key's prefix, attributes nested to "
     "any depth, and the members of lists and containers in order, with their own nesting. Nothing is added, lost, duplicated "
     "or moved to another element, the log that was written is unchanged, and a parser or serializer can be used again.",
     ["inputs", "histories"], "All logs: shapes, attribute kinds, keys with and without known prefixes, values, nesting, zones.",
     NO_TEST + "no test writes a log or reads one back.",
     ["data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py", "utils/XsDateTimeConversion.py", "factory/XFactory.py",
      "model/XAttributeCollection.py", "model/XAttributeTimestamp.py"],
     [("writer", "data_out/XesXmlSerializer.py"), ("reader", "data_in/XesXmlParser.py")],
     ["XesXmlSerializer.serialize, XesXmlParser.parse"])

prop("C02", "The header of an XES log survives writing and reading",
     "Serialising a log to XES and parsing the result gives the same declared extensions, the same global trace and event "
     "attributes (each in its own scope, in order, of every kind, with what is nested in them or their members), and the same "
     "classifiers with their names and defining keys in order, whether or not keys contain blanks. The format version and "
     "features given in a document become features of the log. Declarations that are unknown or incomplete are skipped and "
     "the rest of the log is read; globals do not become attributes of the log, and headers of different logs do not mix.",
     ["inputs", "histories"], "All sets of extensions, globals of every kind per scope, lists of classifiers and keys.",
     NO_TEST + "no test writes or reads a header.",
     ["data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py", "utils/XTokenHelper.py", "model/XLog.py",
      "extension/XExtensionManager.py"],
     [("classifier keys as text", "utils/XTokenHelper.py"), ("header reader", "data_in/XesXmlParser.py")],
     ["XesXmlSerializer.serialize, XesXmlParser.parse, XTokenHelper"])

prop("C03", "Writing a log to MXML and reading it back keeps what MXML can express",
     "Serialising a log of named traces and events to MXML and parsing the result gives the same traces and events in order "
     "with their names, timestamps and data attributes (as text; nested ones under their path joined by colons), each on the "
     "log, trace or event it belongs to; the transition (the known ones in lower case, others verbatim, 'complete' when "
     "missing), the originator as resource (from resource, else role, else group) and the model references. MXML documents of "
     "other programs, with several processes, source data and surrounding whitespace, are read likewise; writing does not "
     "change the log.",
     ["inputs", "histories"], "All logs with non-blank single-line texts; all transitions, zones, attribute kinds; several processes.",
     NO_TEST + "no test touches MXML.",
     ["data_out/XMxmlSerializer.py", "data_in/XMxmlParser.py", "utils/XsDateTimeConversion.py",
      "extension/std/XConceptExtension.py"],
     [("writer", "data_out/XMxmlSerializer.py"), ("reader", "data_in/XMxmlParser.py")],
     ["XMxmlSerializer.serialize, XMxmlParser.parse"])

prop("C04", "Compressed files hold the same log as plain ones",
     "A log written by a GZIP serializer (XES or MXML) is stored compressed under the name of the file given and reads back "
     "through the GZIP parser, or the universal parser, as exactly the log (body and header) that the plain serializer and "
     "parser of that format give, whether or not bytes were asked for, when a file is rewritten, and when serializer and parser "
     "are used again.",
     ["inputs", "histories"], "All logs, both formats, every suffix of the compressed formats.",
     NO_TEST + "no test writes or reads a compressed log.",
     ["data_out/XesXmlGZIPSerializer.py", "data_in/XesXmlGZIPParser.py", "data_out/XMxmlGZIPSerializer.py",
      "data_in/XMxmlGZIPParser.py", "data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py"],
     [("compressed writer", "data_out/XesXmlGZIPSerializer.py"), ("compressed reader", "data_in/XesXmlGZIPParser.py")],
     ["serialize and parse of the GZIP classes"])

prop("C05", "A file is read by the parser its name calls for",
     "Each standard parser accepts a file name exactly when it ends in a suffix of its format (.xes; .xes.gz or .xez; .mxml or "
     ".xml; .mxml.gz) in any letter case. Every suffix a standard serializer announces is accepted by a registered parser that "
     "reads what that serializer wrote. The universal parser accepts a name exactly when a registered parser does, returns the "
     "result of a registered parser that accepts the name and succeeds, never runs one that does not accept it, goes on to the "
     "next when one fails, and raises when none is left.",
     ["inputs", "histories"], "All file names by suffix and case, all sets of registered parsers that accept, refuse or fail.",
     NO_TEST + "no test asks a parser what it accepts.",
     ["data_in/XUniversalParser.py", "data_in/XParserRegistry.py", "data_out/XSerializerRegistry.py", "data_in/XesXmlParser.py",
      "data_in/XesXmlGZIPParser.py", "data_in/XMxmlParser.py", "data_in/XMxmlGZIPParser.py"],
     [("suffix test", "data_in/XesXmlParser.py"), ("dispatch", "data_in/XUniversalParser.py")],
     ["can_parse, get_suffices, XUniversalParser.parse"])

EXT = ["extension/std/XConceptExtension.py", "extension/std/XCostExtension.py", "extension/std/XIdentityExtension.py",
       "extension/std/XLifecycleExtension.py", "extension/std/XMicroExtension.py", "extension/std/XOrganizationalExtension.py",
       "extension/std/XSemanticExtension.py", "extension/std/XTimeExtension.py"]
prop("C08", "What a standard extension assigns is what it extracts",
     "For every assign operation of a standard extension, the matching extract operation returns the value assigned; the value "
     "is stored under the extension's own key, as an attribute of the defined kind that names the extension, and every other "
     "attribute of the element, the other elements and the extension's own templates are unchanged; assigning again replaces "
     "the value; nothing, blank text and numbers below the documented range leave the element as it was. Without the attribute the extract operation returns its documented 'missing' result. Timestamps keep "
     "their instant, lifecycle transitions their code or name, and model references their list of URIs in order.",
     ["inputs", "histories"], "All assign/extract pairs, all values, all elements with any other attributes.",
     "The tests check the names and keys of the extensions, not one assigned value.",
     EXT, [("assign and extract", "extension/std/XConceptExtension.py")], ["assign_* and extract_* of the standard extensions"])

prop("C09", "Standard extensions define the attributes of the XES standard",
     "Each standard extension has the name, prefix and URI of the XES standard and defines on each of the four levels exactly "
     "the standard's attributes of that level, with their keys (prefix, colon, name) and kinds. Each of them has an alias of its "
     "own in English and, except for cost and micro, in German, French, Spanish and Portuguese. The attributes an extension "
     "defines are the union of those of its levels, also after attributes were added or removed, whatever was asked before and whether or "
     "not the extension was used before.",
     ["inputs", "histories"], "All standard extensions from a cold and a warm process; extensions with any added attributes.",
     "The tests check names and prefixes of some extensions; kinds, levels and later additions are not varied.",
     EXT + ["extension/XExtension.py"], [("definitions", "extension/std/XOrganizationalExtension.py"),
                                        ("extension", "extension/XExtension.py")],
     ["XExtension queries"])

prop("C10", "The extension manager finds every registered extension in every way",
     "After any sequence of registrations the manager returns, by URI, by name, by prefix and by index, the extension registered "
     "for it (the last one registered for that URI); every registered extension has one index that never changes, starting "
     "with the eight standard ones, and unknown ones give nothing (index -1). All ways of looking up agree.",
     ["histories"], "All sequences of registrations, new, repeated and replacing.",
     "The tests look up the standard extensions only, in a fixed order.",
     ["extension/XExtensionManager.py", "extension/XExtension.py"], [("registration", "extension/XExtensionManager.py")],
     ["register, get_by_uri, get_by_name, get_by_prefix, get_by_index, get_index"])

prop("C11", "An extension definition file yields the extension it describes",
     "Parsing an extension definition, from a local file or a URL, with or without network, gives an extension with its name, "
     "prefix and URI which defines on each level exactly the attributes declared there (key with the prefix, kind), in any "
     "order and number, and registers each declared alias for the attribute and language it is declared for; elements, XML attributes "
     "and text the format does not know, and aliases outside attributes, are passed over. One definition leaves nothing behind in the next.",
     ["inputs", "histories"], "All definition documents: levels, attribute kinds, aliases; sequences of documents.",
     NO_TEST + "the tests parse no definition with attributes.",
     ["extension/XExtensionParser.py", "extension/XExtension.py", "info/XGlobalAttributeNameMap.py"],
     [("definition reader", "extension/XExtensionParser.py")], ["XExtensionParser.parse"])

prop("C15", "Parsers build the log with the factory they were given",
     "Every log, trace, event and attribute in what an XES or MXML parser (plain or GZIP) returns was created by the factory "
     "passed to its constructor, at every nesting level and in the globals, and by the registry's default factory at "
     "construction when none was given; parsers with different factories do not affect each other. (The attributes MXML takes "
     "over from the standard extensions are copies of the extensions' own.)",
     ["inputs", "programs"], "All factories, all parsers, all documents with every element kind.",
     NO_TEST + "no test passes a factory.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_in/XesXmlGZIPParser.py", "data_in/XMxmlGZIPParser.py",
      "factory/XFactoryRegistry.py"],
     [("handlers", "data_in/XesXmlParser.py")], ["parse of the four parsers"])

prop("C23", "Timestamp texts and dates convert into each other without loss",
     "The text of a timestamp attribute, read back, is the same date to the millisecond with the same UTC offset (UTC when the "
     "date has none), for every date and zone. Every xs:dateTime form (with or without fraction, Z, positive, negative or no "
     "offset) is read field by field, any text of another form gives no date, and the millisecond view of a timestamp attribute denotes the "
     "same instant when read and when set.",
     ["inputs"], "All dates with four digit years, all whole-minute offsets, fractions of any length, all forms of text.",
     NO_TEST + "no test converts a date.",
     ["utils/XsDateTimeConversion.py", "model/XAttributeTimestamp.py"],
     [("text of a timestamp", "model/XAttributeTimestamp.py"), ("reading a timestamp", "utils/XsDateTimeConversion.py")],
     ["str(XAttributeTimestamp), parse_date_time, get_value_millis, set_value_millis"])

prop("C24", "Every documented operation exists and works for its documented arguments",
     "Every public operation of every class can be called with arguments of its documented kinds, with the optional ones or "
     "without, on an empty or a filled object, without failing for an internal reason (an undefined name, a missing member, a "
     "wrong number of arguments, an operation on None), and its result is of the documented kind. Every name, import, member and "
     "argument list in the source refers to something that exists.",
     ["inputs", "programs"], "All public operations of all classes, all arguments of the documented kinds.",
     "Python resolves names, members and argument lists when a line runs; the ten tests run a small part of the lines.",
     ["model/XLog.py", "extension/std/XCostExtension.py", "extension/std/XMicroExtension.py", "info/XLogInfo.py",
      "utils/XAttributeUtils.py", "factory/XFactory.py", "classification/XEventClasses.py"],
     [("the whole package", "factory/XFactory.py")], ["every public operation"])

prop("C25", "Streams opened by the library are closed on every path",
     "Every stream the library opens itself (compressed logs read and written, extension definitions read from a file or a URL, "
     "extension definitions cached) is closed when the operation ends, whether it returns or raises: also when a document is "
     "malformed, when reading, writing or the network fails, and when the caller's factory or log fails half-way. The plain "
     "serializers leave the caller's stream open.",
     ["inputs", "fault_sequences"], "All operations that open a stream, all documents, a failure at every library call.",
     NO_TEST + "no test reads or writes a compressed log, and a stream left open fails nothing.",
     ["data_in/XesXmlGZIPParser.py", "data_in/XMxmlGZIPParser.py", "data_out/XesXmlGZIPSerializer.py",
      "data_out/XMxmlGZIPSerializer.py", "extension/XExtensionParser.py", "extension/XExtensionManager.py"],
     [("extension definitions", "extension/XExtensionParser.py"), ("extension cache", "extension/XExtensionManager.py")],
     ["parse, serialize, cache_extension, load_extension_cache"])

prop("C26", "Identifiers are unique, keep their value and survive their text form",
     "Every identifier created by the identifier factory, by an identifier constructor without arguments or for an event without "
     "one is fresh: no two share a UUID. An identifier given to an event, an attribute or an identifier object is the one read "
     "back, also after cloning, and parsing the text of an identifier, in any accepted spelling, gives an equal identifier with "
     "the same UUID.",
     ["inputs", "histories"], "All UUIDs and spellings, any number of creations.",
     NO_TEST + "no test creates an identifier.",
     ["id/XID.py", "id/XIDFactory.py", "model/XAttributeID.py", "model/XEvent.py"],
     [("identifier", "id/XID.py"), ("factory", "id/XIDFactory.py")], ["XID, XIDFactory, XAttributeID, XEvent.get_id"])

prop("C27", "Nested cost amounts, drivers and types read back as assigned",
     "For amounts (positive ones), drivers and types alike: a map of keys to values assigned to an element is exactly the map "
     "extracted, and a map of key paths to values assigned with the nested form is exactly the nested map extracted, at every depth, "
     "also onto attributes that exist already. An amount of zero that an attribute carries is extracted like any other. The three "
     "concerns do not disturb each other, and no other attribute of the element changes.",
     ["inputs", "histories"], "All maps of keys or key paths to values, for several shapes of the key tree.",
     NO_TEST + "no test assigns a cost.",
     ["extension/std/XCostExtension.py", "extension/std/XAbstractNestedAttributeSupport.py"],
     [("nested support", "extension/std/XAbstractNestedAttributeSupport.py")],
     ["assign_/extract_ (nested) amounts, drivers, types"])

prop("C28", "The extended event is a faithful view of the event it wraps",
     "Every getter of the extended event returns what the matching standard extension extracts from the wrapped event, every "
     "setter stores exactly the value given where that extension reads it, and neither changes any other attribute. Attributes "
     "and extensions are those of the wrapped event; a wrapper keeps one identifier, which no wrapper of another event has, and a "
     "clone has another one and wraps a copy.",
     ["inputs"], "All getters and setters, all values, events with any other attributes.",
     NO_TEST + "no test uses the extended event.",
     ["extension/std/XExtendedEvent.py"], [("wrapper", "extension/std/XExtendedEvent.py")], ["XExtendedEvent"])

prop("C30", "Asking changes nothing",
     "No query changes what it is asked about: getters, extractors, predicates, comparisons, conversion to text, hashing, class "
     "identities, summaries, event classes, clones, and serialisation in any of the four formats leave the log (attributes nested "
     "to any depth, their order, values, extensions, identifiers, the order of traces and events, classifiers, globals, features) "
     "and the process (registered extensions, registries, name mappings, other figures of a summary) as they were; asked "
     "again, they give the same answer, and an answer given before does not change. (Asking the name map for a mapping it does "
     "not have creates it: that is what it documents.)",
     ["inputs", "histories"], "All queries, on logs, traces, events and attributes of every kind, with arbitrary values.",
     NO_TEST + "tests look at the answer, not at what the query did to the log besides.",
     MODEL + ["data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "info/XLogInfo.py", "classification/XEventClasses.py",
              "extension/std/XConceptExtension.py", "classification/XEventAttributeClassifier.py"],
     [("queries", "extension/std/XCostExtension.py"), ("summaries", "info/XLogInfo.py"), ("serialisation", "data_out/XesXmlSerializer.py")],
     ["every get_, extract_, is_, has_, uses_ operation; serialize; create; clone; derive_event_classes"])

prop("C31", "Objects constructed separately do not share state",
     "For every class of the model, the classifiers, the summaries and the extensions: no change made to one object through its "
     "public operations is visible in another one constructed separately, before or after. An event, trace or attribute "
     "reports as its extensions exactly those of its attributes.",
     ["inputs", "programs"], "All classes, all pairs of objects, all public changes of either.",
     NO_TEST + "no test changes one of two objects.",
     MODEL + ["model/XAttributeCollection.py", "classification/XEventClasses.py", "info/XAttributeInfo.py", "info/XTimeBounds.py"],
     [("constructors", "model/XLog.py")], ["constructors, setters and getters of the model"])

prop("C32", "A malformed timestamp costs only its own attribute",
     "Reading an XES document that contains a date with malformed text, on a log, trace, event or global, nested at any depth, "
     "in a list or with attributes nested inside it, gives exactly the log the document without that element gives; reading an "
     "MXML document with a malformed timestamp gives the log without that timestamp. Reading never fails because of it, and "
     "text that is not a timestamp never becomes a date.",
     ["inputs"], "All positions of the malformed date, many classes of malformed text (any text without digits among them).",
     NO_TEST + "no test reads a malformed document.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "utils/XsDateTimeConversion.py"],
     [("attribute stacks", "data_in/XesXmlParser.py"), ("reading a timestamp", "utils/XsDateTimeConversion.py")],
     ["XesXmlParser.parse, XMxmlParser.parse, parse_date_time"])

prop("C33", "Cached extension definitions are found again",
     "An extension definition cached from its URI (ending in .xesext, in a slash or in neither; delivered in one or several reads; "
     "with the cache folders existing or not) is, once the cache is loaded, found by URI, name, prefix and index with exactly the "
     "attributes and aliases it defines. Definitions older than 30 days are removed and not loaded, extensions registered "
     "before are not replaced, other files and folders are left alone, and neither a malformed definition nor an unreachable URI "
     "keeps the others from working or raises.",
     ["inputs", "histories"], "All definitions, ages, folder contents and listing orders; all orders of caching and loading.",
     NO_TEST + "no test touches the cache, which depends on the network, the disk and the clock.",
     ["extension/XExtensionManager.py", "utils/XRuntimeUtils.py", "extension/XExtensionParser.py"],
     [("cache", "extension/XExtensionManager.py"), ("folders", "utils/XRuntimeUtils.py")], ["cache_extension, load_extension_cache"])

prop("C34", "Documents of other programs are read for what they say",
     "Reading an XES or MXML document gives what it says in the terms of the format, however it is put: elements and XML "
     "attributes the format does not know (at any position, with text, with unknown elements inside) are passed over, XES element "
     "names are understood in any mixture of cases, list members are found inside a values element or without it, attributes may "
     "come before, between and after traces and events, children of an MXML entry in any order, an XES attribute without key is "
     "called UNKNOWN and one without value is empty, a repeated key keeps the last value; traces and events (empty ones too, "
     "except empty MXML instances) come in document order, each MXML process as a log of its own; features of the log are kept.",
     ["inputs"], "All positions of unknown elements, spellings of element names and orders of children, for arbitrary texts.",
     NO_TEST + "tests read a few documents written by one program.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py"],
     [("XES reader", "data_in/XesXmlParser.py"), ("MXML reader", "data_in/XMxmlParser.py")], ["XesXmlParser.parse, XMxmlParser.parse"])

prop("C35", "Documents written follow the XES and MXML formats",
     "The document a serializer writes (as text, as bytes or compressed) is, element for element, the one its format prescribes for "
     "the log. XES: <log> with version and features; extensions (name, prefix, uri), globals (trace and event scope), classifiers "
     "(name, keys) in front of attributes and traces; every attribute the element of its kind with key and value, and what is nested "
     "in it or its members as children; the attributes of a trace before its events. Dates are xs:dateTime with milliseconds and "
     "offset, booleans true or false. MXML: Source and Process, each trace a ProcessInstance, each event an AuditTrailEntry with "
     "WorkflowModelElement, EventType (a known one in lower case, or unknown with unknowntype), Originator and Timestamp when the "
     "event has them, and its attributes as Data; model references on the elements they belong to. Nothing else is written.",
     ["inputs"], "All logs (symbolic keys and values of every kind, at every level), in text, bytes and compressed form.",
     NO_TEST + "tests write one log and never look at the document; a reader that makes the same mistake hides it.",
     ["data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py"],
     [("XES writer", "data_out/XesXmlSerializer.py"), ("MXML writer", "data_out/XMxmlSerializer.py"),
      ("values", "model/XAttributeTimestamp.py"), ("compressed", "data_out/XesXmlGZIPSerializer.py")],
     ["serialize, add_attributes, add_attribute"])

prop("C36", "Readers and writers carry nothing over from one document to another",
     "Reading a document gives the same log whatever the parser, or any other parser in the process, has read before: complete "
     "documents, documents that stop being well-formed anywhere, that could not be read, or on which the client's factory failed; also "
     "the same document again, or another one read in the middle of this one; and whatever was done since with the logs read. A log read "
     "earlier is not changed by reading on, and no two reads give the same log. In the same way the document a serializer writes depends on the log alone, not on what the "
     "serializer (or another one) has written, or failed to write, before or is in the middle of writing; and an extension "
     "definition read gives the same extension after any others, complete or broken.",
     ["histories", "schedules", "fault_sequences"], "All pairs of documents over the shapes analysed, every element at which the first one "
     "may break, every library call and factory call that may fail, and nested operations at every factory call.",
     NO_TEST + "tests read one well-formed document with one new parser.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_out/XMxmlSerializer.py", "extension/XExtensionParser.py"],
     [("XES handler", "data_in/XesXmlParser.py"), ("MXML handler", "data_in/XMxmlParser.py"),
      ("writers", "data_out/XMxmlSerializer.py"), ("universal parser", "data_in/XUniversalParser.py"),
      ("definitions", "extension/XExtensionParser.py")], ["XesXmlParser.parse, XMxmlParser.parse, serialize"])

prop("C37", "Modules can be imported in any order, quietly, with one result",
     "Every module of the package can be the first one imported, and the others in any order after it: importing never fails, prints "
     "nothing, opens, creates and fetches nothing. Whatever was imported first, and in whatever order, the parser, serializer and "
     "factory registries hold the same members and defaults, the extension manager the same extensions at the same indices, and the "
     "name mappings the same aliases. A class works when nothing but its own module has been imported: its operations find everything "
     "they need.",
     ["histories", "programs"], "Every module as the first import, the whole package in several orders, every documented operation "
     "of every class with only its module imported.",
     NO_TEST + "tests run in one process that has imported nearly everything, in one order.",
     ["extension/XExtensionManager.py", "data_in/XParserRegistry.py", "factory/XFactoryRegistry.py"],
     [("registries", "data_in/XParserRegistry.py"), ("extensions", "extension/XExtensionManager.py"),
      ("name mappings", "info/XGlobalAttributeNameMap.py")], ["module bodies"])

prop("C38", "Model objects hold exactly what was put into them, in order",
     "After any sequence of insertions, replacements and removals a log holds exactly the traces, a trace the events, a list or container "
     "attribute the members, an element or attribute the attributes (one per key), and a log the classifiers, global attributes, "
     "extensions and features put in and not removed: the very objects given, in order, equal and repeated ones too, under the same "
     "index, length, membership and iteration, whatever the attributes of the object are. A value or attribute map set is the one "
     "read back. The summary kept with a log is given for the classifier it was kept for and for no other. The text of a list or "
     "container is its members' keys and texts in order.",
     ["histories", "inputs"], "All sequences over the public list, map and collection operations analysed, with distinct, equal, repeated "
     "and empty elements; all attribute kinds.",
     NO_TEST + "the tests put nothing into a log, trace or collection.",
     ["model/XLog.py", "model/XTrace.py", "model/XAttributeCollection.py", "model/XAttributeMap.py", "model/XAttributable.py"],
     [("log", "model/XLog.py"), ("trace", "model/XTrace.py"), ("members", "model/XAttributeCollection.py"),
      ("attributes", "model/XAttributeMap.py")], ["append, insert, add_to_collection, set_attributes, set_info"])

prop("C39", "Support folders and messages go where platform and listener say",
     "On every platform the support folder is the platform's place below the user's home directory (OpenXES on Windows, "
     "Library/Application Support/OpenXES on Mac OS X, .OpenXES elsewhere) and the extension cache its subfolder ExtensionCache; both "
     "exist once they were asked for, whatever existed before and however often they are asked for, and nothing else is created. "
     "Exactly the predicates of the platform the program runs on hold. A logging object hands each message, with its importance (DEBUG "
     "when none is given), once and in order to the listener set last and to no other; without a listener set it prints them, and "
     "with none (None) nothing happens.",
     ["configurations", "histories"], "All platforms, states of the home directory and sequences of calls analysed; all messages, "
     "importances and sequences of listeners.",
     NO_TEST + "tests run on one platform, with one home directory, and look at no message.",
     ["utils/XRuntimeUtils.py", "log/XLogging.py", "log/XStdoutLoggingListener.py"],
     [("folders", "utils/XRuntimeUtils.py"), ("messages", "log/XLogging.py")], ["get_support_folder, get_extension_cache_folder, log"])

prop("C40", "A log that was read can be worked on like one built by hand",
     "A log read from an XES or MXML document, plain or compressed, by its parser or the universal one, can be changed, thinned out, "
     "rebuilt, merged with other logs read and written on: changing, nesting under or removing one attribute shows in that "
     "attribute alone, not in any other of the same log, of another log or document; every edit through the public interface gives "
     "what it gives for a log of the same contents built by hand, in memory and in the documents written in both formats, plain and "
     "compressed; what is written as XES reads back as the edited log; writing does not change the log; and writing a log read back "
     "gives the same document again.",
     ["histories", "inputs"], "All editing sequences analysed, on documents with nested, equal and repeated attributes; all texts of "
     "the documents.",
     NO_TEST + "the tests read documents and look at counts; none edits a log that was read.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "model/XLog.py",
      "model/XTrace.py", "model/XAttributable.py"],
     [("reading", "data_in/XesXmlParser.py"), ("MXML", "data_in/XMxmlParser.py"), ("editing", "model/XLog.py"),
      ("writing", "data_out/XesXmlSerializer.py")], ["parse, edit, serialize"])

na("C90", "Cost grows in proportion to the log",
   "Reading, writing, cloning and summarising a log take time and memory proportional to the size of the log.",
   ["inputs"], "All logs.", NO_TEST + "tests read one small log.",
   ["data_in/XesXmlParser.py", "data_out/XesXmlSerializer.py", "info/XLogInfo.py"], [("reader", "data_in/XesXmlParser.py")],
   "Quantifies over running time and allocation of CPython and of the XML library, on which no static argument in reach gives a bound.")
