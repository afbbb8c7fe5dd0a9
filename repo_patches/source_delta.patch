From 9f9bc96633a359f3b1dbfdb0e6236f1d27e5781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 01/57] fix: XAttributeMap.clone copies the attributes instead
 of sharing them

---
 src/opyenxes/model/XAttributeMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XAttributeMap.py b/src/opyenxes/model/XAttributeMap.py
index fa1b9e6..3dd4851 100644
--- a/src/opyenxes/model/XAttributeMap.py
+++ b/src/opyenxes/model/XAttributeMap.py
@@ -18,7 +18,7 @@ class XAttributeMap(dict):
         """
         clone = XAttributeMap()
         for key in self.keys():
-            clone[key] = self[key]
+            clone[key] = self[key].clone()
 
         return clone
 
-- 
2.43.0


From 58665dce497b9705a7d0d1c9ac80023f9f2a0759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:22 +0000
Subject: [PATCH 02/57] fix: cloning an attribute keeps its nested attributes

---
 src/opyenxes/model/XAttributeBoolean.py    | 1 +
 src/opyenxes/model/XAttributeContinuous.py | 1 +
 src/opyenxes/model/XAttributeDiscrete.py   | 1 +
 src/opyenxes/model/XAttributeID.py         | 1 +
 src/opyenxes/model/XAttributeLiteral.py    | 1 +
 src/opyenxes/model/XAttributeTimestamp.py  | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/opyenxes/model/XAttributeBoolean.py b/src/opyenxes/model/XAttributeBoolean.py
index 395973a..4a5e0c3 100644
--- a/src/opyenxes/model/XAttributeBoolean.py
+++ b/src/opyenxes/model/XAttributeBoolean.py
@@ -41,6 +41,7 @@ class XAttributeBoolean(XAttribute):
         """
         clone = XAttributeBoolean(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index b255d68..20cde5f 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -41,6 +41,7 @@ class XAttributeContinuous(XAttribute):
         """
         clone = XAttributeContinuous(self.get_key(), self.__value,
                                      self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeDiscrete.py b/src/opyenxes/model/XAttributeDiscrete.py
index 9c567af..7715fac 100644
--- a/src/opyenxes/model/XAttributeDiscrete.py
+++ b/src/opyenxes/model/XAttributeDiscrete.py
@@ -41,6 +41,7 @@ class XAttributeDiscrete(XAttribute):
         """
         clone = XAttributeDiscrete(self.get_key(), self.__value,
                                    self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeID.py b/src/opyenxes/model/XAttributeID.py
index c84fc45..5d33825 100644
--- a/src/opyenxes/model/XAttributeID.py
+++ b/src/opyenxes/model/XAttributeID.py
@@ -40,6 +40,7 @@ class XAttributeID(XAttribute):
         """
         clone = XAttributeID(self.get_key(), self.__value.clone(),
                              self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeLiteral.py b/src/opyenxes/model/XAttributeLiteral.py
index 1868c40..5f0fb55 100644
--- a/src/opyenxes/model/XAttributeLiteral.py
+++ b/src/opyenxes/model/XAttributeLiteral.py
@@ -41,6 +41,7 @@ class XAttributeLiteral(XAttribute):
         """
         clone = XAttributeLiteral(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c937480..34ff9d2 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -54,6 +54,7 @@ class XAttributeTimestamp(XAttribute):
         """
         clone = XAttributeTimestamp(self.get_key(), self.__value,
                                     self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
-- 
2.43.0


From 980269cdc4520e9465c8a0655925771d976c0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:23 +0000
Subject: [PATCH 03/57] fix: list and container attributes can be cloned

---
 src/opyenxes/model/XAttributeContainer.py | 12 ++++++++++++
 src/opyenxes/model/XAttributeList.py      | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/opyenxes/model/XAttributeContainer.py b/src/opyenxes/model/XAttributeContainer.py
index cca85ec..8508ac5 100644
--- a/src/opyenxes/model/XAttributeContainer.py
+++ b/src/opyenxes/model/XAttributeContainer.py
@@ -12,3 +12,15 @@ class XAttributeContainer(XAttributeCollection):
     """
     def __init__(self, key, extension=None):
         super().__init__(key, extension)
+
+    def clone(self):
+        """Creates and returns a copy of this object.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeContainer`
+        """
+        clone = XAttributeContainer(self.get_key(), self.get_extension())
+        for attribute in self.get_collection():
+            clone.add_to_collection(attribute.clone())
+        clone.set_attributes(self.get_attributes().clone())
+        return clone
diff --git a/src/opyenxes/model/XAttributeList.py b/src/opyenxes/model/XAttributeList.py
index a0a6331..b08d816 100644
--- a/src/opyenxes/model/XAttributeList.py
+++ b/src/opyenxes/model/XAttributeList.py
@@ -12,3 +12,15 @@ class XAttributeList(XAttributeCollection):
     """
     def __init__(self, key, extension=None):
         super().__init__(key, extension)
+
+    def clone(self):
+        """Creates and returns a copy of this object.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeList`
+        """
+        clone = XAttributeList(self.get_key(), self.get_extension())
+        for attribute in self.get_collection():
+            clone.add_to_collection(attribute.clone())
+        clone.set_attributes(self.get_attributes().clone())
+        return clone
-- 
2.43.0


From c8226c8bbcf799dac232e3d6da28047af17b6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 04/57] fix: XLog.clone copies the global attributes instead of
 sharing them

---
 src/opyenxes/model/XLog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index e44a343..94f2277 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -31,8 +31,8 @@ class XLog(XElement, list):
             clone.get_extensions().add(elem)
 
         clone.__classifiers = self.__classifiers.copy()
-        clone.__globalTraceAttributes = self.__globalTraceAttributes.copy()
-        clone.__globalEventAttributes = self.__globalEventAttributes.copy()
+        clone.__globalTraceAttributes = [attribute.clone() for attribute in self.__globalTraceAttributes]
+        clone.__globalEventAttributes = [attribute.clone() for attribute in self.__globalEventAttributes]
         clone.__features = self.__features.copy()
 
         for trace in self:
-- 
2.43.0


From 0046cbf3da5844aa484f36ecca07b91ca2ec988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 05/57] fix: get_extensions collects the extensions of the
 attributes

---
 src/opyenxes/model/XAttributable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index a269b6c..9fc70fa 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -24,9 +24,10 @@ class XAttributable:
         """
         extensions = set()
         for attribute in self.__attributes.values():
-            extension = attribute.get_extensions()
-            if len(extension) != 0:
+            extension = attribute.get_extension()
+            if extension is not None:
                 extensions.add(extension)
+            extensions.update(attribute.get_extensions())
         return extensions
 
     def get_attributes(self):
-- 
2.43.0


From 648f7b5a7ab2c13b2d71681378423f8a986bd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:40 +0000
Subject: [PATCH 06/57] fix: the hash of a trace depends on its events only

---
 src/opyenxes/model/XTrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index e7df86f..5ec4f31 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -66,4 +66,4 @@ class XTrace(XElement, list):
         super(XTrace, self).append(p_object)
 
     def __hash__(self):
-        return hash(super(XTrace, self))
+        return hash(tuple(self))
-- 
2.43.0


From cc0870aa84f000f4d2992625976d7d605e176620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:40 +0000
Subject: [PATCH 07/57] fix: XFactory.create_event keeps the identity of an
 event without attributes

---
 src/opyenxes/factory/XFactory.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 58a671e..5ba237e 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -55,13 +55,7 @@ class XFactory:
         :return: A new event instance.
         :rtype: `XEvent`
         """
-        if attribute and identity:
-            return XEvent(attribute, identity)
-
-        if attribute:
-            return XEvent(attribute)
-
-        return XEvent()
+        return XEvent(attribute, identity)
 
     @staticmethod
     def create_attribute_map():
-- 
2.43.0


From b537688e54418aaf4e8c0591650561bf8360b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 08/57] fix: a list or container attribute never equals an
 attribute of another kind

---
 src/opyenxes/model/XAttributeCollection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 55c8661..2198e4b 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,14 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def __hash__(self):
+        return super().__hash__()
+
+    def __eq__(self, other):
+        if not isinstance(other, XAttributeCollection):
+            return False
+        return super().__eq__(other)
+
     def __str__(self):
         text = []
         sep = "["
-- 
2.43.0


From 559ab6b251e113afa93fa076e5c8e9f3dcc2f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:05 +0000
Subject: [PATCH 09/57] fix: a prototype can be derived from a timestamp
 attribute

---
 src/opyenxes/utils/XAttributeUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XAttributeUtils.py b/src/opyenxes/utils/XAttributeUtils.py
index 735630a..6eb42e1 100644
--- a/src/opyenxes/utils/XAttributeUtils.py
+++ b/src/opyenxes/utils/XAttributeUtils.py
@@ -107,7 +107,7 @@ class XAttributeUtils:
             elif isinstance(prototype, XAttributeDiscrete):
                 prototype.set_value(0)
             elif isinstance(prototype, XAttributeTimestamp):
-                prototype.set_value_millies(0)
+                prototype.set_value_millis(0)
             elif isinstance(prototype, XAttributeID):
                 prototype.set_value(XIDFactory().create_id())
             else:
-- 
2.43.0


From 94924182aadbb8bc2ce67d9de3a7f61dcc9377c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 10/57] fix: attribute info indexes prototypes by type and
 extension

---
 src/opyenxes/info/XAttributeInfo.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/info/XAttributeInfo.py b/src/opyenxes/info/XAttributeInfo.py
index 12d8c6c..66cb84d 100644
--- a/src/opyenxes/info/XAttributeInfo.py
+++ b/src/opyenxes/info/XAttributeInfo.py
@@ -131,7 +131,7 @@ class XAttributeInfo:
         :return: A tuple of attribute prototypes registered for no extension.
         :rtype: tuple
         """
-        return self.__no_extension_set
+        return tuple(self.__no_extension_set)
 
     def get_keys_without_extension(self):
         """Returns keys of all registered attributes defined by no extension.
@@ -151,10 +151,13 @@ class XAttributeInfo:
             prototype = XAttributeUtils.derive_prototype(attribute)
             self.__key_map[attribute.get_key()] = prototype
             self.__frequencies[attribute.get_key()] = 1
-            type_set = self.__type_map.get(XAttributeUtils.get_type(prototype))
-            if type_set is None:
-                type_set = set()
-            self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+            attribute_type = XAttributeUtils.get_type(prototype)
+            self.__type_map.setdefault(attribute_type, set()).add(prototype)
+            extension = attribute.get_extension()
+            if extension is None:
+                self.__no_extension_set.add(prototype)
+            else:
+                self.__extension_map.setdefault(extension, set()).add(prototype)
         else:
             self.__frequencies[attribute.get_key()] += 1
 
-- 
2.43.0


From 8ef3e297177418bd2c6e8365c6f7777fc4bd8612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:41 +0000
Subject: [PATCH 11/57] fix: a class identity over three or more keys keeps the
 place of missing attributes

---
 src/opyenxes/classification/XEventAttributeClassifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 03fe255..1da6a89 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -46,8 +46,7 @@ class XEventAttributeClassifier:
             identity = []
             for key in self.__keys:
                 attribute = event.get_attributes().get(key)
-                if attribute:
-                    identity.append(str(attribute))
+                identity.append(str(attribute) if attribute else "")
 
             return "&&".join(identity)
 
-- 
2.43.0


From 64bde40687a36cc9420250b85fbc7b5f5d2e116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:43 +0000
Subject: [PATCH 12/57] fix: map_safely falls back when the named mapping does
 not exist

---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index bacd9b1..4f7bde3 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -104,10 +104,10 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
             return alias
 
         elif isinstance(attribute, XAttribute) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
         elif isinstance(attribute, str) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
     def register_mapping(self, mapping_name, attribute_key, alias):
         """Registers a known attribute for mapping in a given attribute name
-- 
2.43.0


From 1212a5270044dbd148aa5c68e7c5d9dcc9153689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:29 +0000
Subject: [PATCH 13/57] fix: XTimer.stop takes the time in milliseconds

---
 src/opyenxes/utils/XTimer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index bfab16c..9be2201 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -28,7 +28,7 @@ class XTimer:
         """Stops the timer (takes time).
 
         """
-        self.__stop = time.time()
+        self.__stop = time.time() * 1000
 
     def get_duration(self):
         """Retrieve the runtime of the timer.
-- 
2.43.0


From f8f9e14628b864428ea0e212465d5f669fcbc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:30 +0000
Subject: [PATCH 14/57] fix: a timer starts when it is created, not when the
 module is imported

---
 src/opyenxes/utils/XTimer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index 9be2201..efc78e3 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -12,10 +12,9 @@ class XTimer:
     HOUR_MILLIS = 3600000
     MINUTE_MILLIS = 60000
     SECOND_MILLIS = 1000
-    __start = time.time() * 1000
 
     def __init__(self):
-        self.__stop = self.__start
+        self.start()
 
     def start(self):
         """Starts the timer.
-- 
2.43.0


From 10b222ca426e00020b6dcf92d0a34ae2d8768339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:35 +0000
Subject: [PATCH 15/57] fix: assign_instance stores the instance, not the name

---
 src/opyenxes/extension/std/XConceptExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XConceptExtension.py b/src/opyenxes/extension/std/XConceptExtension.py
index 2213854..23508e7 100644
--- a/src/opyenxes/extension/std/XConceptExtension.py
+++ b/src/opyenxes/extension/std/XConceptExtension.py
@@ -89,4 +89,4 @@ class XConceptExtension(XExtension, metaclass=XConceptExtensionMetaclass):
         if instance is not None and len(instance.strip()) > 0:
             attr = self.ATTR_INSTANCE.clone()
             attr.set_value(instance)
-            event.get_attributes()["concept:name"] = attr
+            event.get_attributes()["concept:instance"] = attr
-- 
2.43.0


From b50ad8de43eb9180cdcbf95599dab195ec0b1869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:35 +0000
Subject: [PATCH 16/57] fix: assign_currency stores the currency, not the name

---
 src/opyenxes/extension/std/XCostExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index c20b93f..7d1de0c 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -180,7 +180,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         if currency is not None and len(currency.strip()) > 0:
             attr = self.ATTR_CURRENCY.clone()
             attr.set_value(currency)
-            element.get_attributes()["concept:name"] = attr
+            element.get_attributes()["cost:currency"] = attr
 
     @staticmethod
     def extract_amount(attribute):
-- 
2.43.0


From 6a8cddf01176280863a0967497bfaad4354de2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 17/57] fix: assign_type stores the type given

---
 src/opyenxes/extension/std/XCostExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index 7d1de0c..5b509e8 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -477,7 +477,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         """
         if type_ is not None and len(type_.strip()) > 0:
             attr = self.ATTR_TYPE.clone()
-            attr.set_value(type)
+            attr.set_value(type_)
             attribute.get_attributes()["cost:type"] = attr
 
     @staticmethod
-- 
2.43.0


From 458c96409886edcc41063e33c0fd9d1b63fc9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:37 +0000
Subject: [PATCH 18/57] fix: assign_parent_id sets the value of the attribute

---
 src/opyenxes/extension/std/XMicroExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b801389..b01f1b5 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -93,7 +93,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         """
         if parent_id is not None:
             attr = self.ATTR_PID.clone()
-            attr.setValue(parent_id)
+            attr.set_value(parent_id)
             event.get_attributes()["micro:parentId"] = attr
         else:
             if "micro:parentId" in event.get_attributes():
-- 
2.43.0


From 80fadb457b67ade53268e0d02a80241313b9974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:07 +0000
Subject: [PATCH 19/57] fix: the parent id of an event without one is None

---
 src/opyenxes/extension/std/XMicroExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b01f1b5..08ed8d5 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -77,7 +77,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :return: The requested event parent Id, null if not set.
         :rtype: XID
         """
-        attribute = event.get_attributes()["micro:parentId"]
+        attribute = event.get_attributes().get("micro:parentId")
         if attribute:
             return attribute.get_value()
         return None
-- 
2.43.0


From 42efea1a8501e578ac1888e52c8db56f62327c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:08 +0000
Subject: [PATCH 20/57] fix: the length of an event without one is -1, as
 documented

---
 src/opyenxes/extension/std/XMicroExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index 08ed8d5..f0fa250 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -124,7 +124,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         attribute = event.get_attributes().get("micro:length")
         if attribute:
             return attribute.get_value()
-        return None
+        return -1
 
     def assign_length(self, event, length):
         """Assigns any event its state number of children, as defined by this
-- 
2.43.0


From de11fde486c14fee3f04a1f2591a5a73f8ad12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:09 +0000
Subject: [PATCH 21/57] fix: the timestamp of an event without one is None, as
 documented

---
 src/opyenxes/extension/std/XTimeExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 302a635..9df6e9e 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -41,7 +41,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
         attribute = event.get_attributes().get("time:timestamp")
         if attribute:
             return attribute.get_value()
-        return -1
+        return None
 
     def assign_timestamp(self, event, date):
         """Assigns to a given event its timestamp.
-- 
2.43.0


From c732f8a6db0182a6ed08c9d73802963cd9e49bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:10 +0000
Subject: [PATCH 22/57] fix: assign_timestamp keeps the time zone and the
 fraction of a second

---
 src/opyenxes/extension/std/XTimeExtension.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 9df6e9e..7b8961a 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -3,7 +3,6 @@ from urllib.parse import urlparse
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
-import time
 from datetime import datetime
 
 
@@ -52,11 +51,9 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
-            aux = time.mktime(date.timetuple()) * 1000
+            attr.set_value(date)
         else:
-            aux = date
-
-        attr = self.ATTR_TIMESTAMP.clone()
-        attr.set_value_millis(aux)
+            attr.set_value_millis(date)
         event.get_attributes()["time:timestamp"] = attr
-- 
2.43.0


From a33ca82006e4a58a3b309860e28d6c67d2d30f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 23/57] fix: the default lifecycle model is 'standard'

---
 src/opyenxes/extension/std/XLifecycleExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XLifecycleExtension.py b/src/opyenxes/extension/std/XLifecycleExtension.py
index b69e0a9..76e7653 100644
--- a/src/opyenxes/extension/std/XLifecycleExtension.py
+++ b/src/opyenxes/extension/std/XLifecycleExtension.py
@@ -64,7 +64,7 @@ class XLifecycleExtension(XExtension, metaclass=XLifecycleExtensionMetaclass):
     def __init__(self):
         super().__init__("Lifecycle", "lifecycle", urlparse("http://www.xes-standard.org/lifecycle.xesext"))
         factory = XFactoryRegistry().current_default()
-        self.ATTR_MODEL = factory.create_attribute_literal("lifecycle:model", "standart", self)
+        self.ATTR_MODEL = factory.create_attribute_literal("lifecycle:model", "standard", self)
         self.ATTR_TRANSITION = factory.create_attribute_literal("lifecycle:transition", XLifecycleExtension.StandardModel.COMPLETE, self)
         self.get_log_attributes().add(self.ATTR_MODEL.clone())
         self.get_event_attributes().add(self.ATTR_TRANSITION.clone())
-- 
2.43.0


From e553341ce5067912cc2b6cc75c14da072836024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:12 +0000
Subject: [PATCH 24/57] fix: model references are separated by blanks and keep
 their case

---
 src/opyenxes/extension/std/XSemanticExtension.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index f652df3..053fc68 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -44,11 +44,7 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         model_references = list()
         model_reference_attribute = target.get_attributes().get("semantic:modelReference")
         if model_reference_attribute:
-            ref_string = model_reference_attribute.get_value().lower()
-            aux = ref_string.split("\\s")
-            for i in range(len(aux)):
-                reference = aux[i]
-                model_references.append(reference.lower())
+            model_references.extend(model_reference_attribute.get_value().split())
 
         return model_references
 
-- 
2.43.0


From b1bd697b8ba3020c993b1ca8248bf2c7198bd37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:28 +0000
Subject: [PATCH 25/57] fix: assign_types takes single keys like assign_amounts
 and assign_drivers

---
 src/opyenxes/extension/std/XCostExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index 5b509e8..e911da3 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -491,7 +491,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         :param types: Dictionary with keys to cost types which are to be assigned.
         :type types: dict(list[str]: str)
         """
-        XCostType().assign_nested_values(element, types)
+        XCostType().assign_values(element, types)
 
     @staticmethod
     def assign_nested_types(element, types):
-- 
2.43.0


From 153f8fa9e61d631c1c8b035966f8ba7c309916b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:29 +0000
Subject: [PATCH 26/57] fix: nested values are mapped from tuples of keys,
 lists cannot be dictionary keys

---
 .../extension/std/XAbstractNestedAttributeSupport.py        | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 49368ab..cc3659b 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -112,7 +112,7 @@ class XAbstractNestedAttributeSupport:
         """
         value = self.extract_value(element)
         if value:
-            nested_values[keys] = value
+            nested_values[tuple(keys)] = value
 
         for attr in element.get_attributes().values():
             new_keys = list(keys)
@@ -147,9 +147,7 @@ class XAbstractNestedAttributeSupport:
         """
         nested_values = dict()
         for key in values.keys():
-            keys = list()
-            keys.append(key)
-            nested_values[keys] = values[key]
+            nested_values[(key,)] = values[key]
 
         self.assign_nested_values(element, nested_values)
 
-- 
2.43.0


From 943ba89742ee7395e7e3e19c46efa761c93e1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:30 +0000
Subject: [PATCH 27/57] fix: a nested value is listed under the keys of the
 attributes that lead to it

---
 src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index cc3659b..87e44b5 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -116,7 +116,7 @@ class XAbstractNestedAttributeSupport:
 
         for attr in element.get_attributes().values():
             new_keys = list(keys)
-            new_keys.append(element.get_key())
+            new_keys.append(attr.get_key())
             self.__extract_nested_values_private__(attr, nested_values, new_keys)
 
     def assign_values(self, element, values):
-- 
2.43.0


From ac9b7ab38bd55324c845de50194e1ed5a8f0565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:31 +0000
Subject: [PATCH 28/57] fix: an amount of zero is extracted like any other

---
 src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 87e44b5..a8eb313 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -111,7 +111,7 @@ class XAbstractNestedAttributeSupport:
 
         """
         value = self.extract_value(element)
-        if value:
+        if value is not None:
             nested_values[tuple(keys)] = value
 
         for attr in element.get_attributes().values():
-- 
2.43.0


From ccc722301c377d825d329d7b7509c088daf3ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:17 +0000
Subject: [PATCH 29/57] fix: the extended event keeps the case of resource,
 role and group

---
 src/opyenxes/extension/std/XExtendedEvent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index 7217235..607adb1 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,7 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.lower())
+        XOrganizationalExtension().assign_resource(self.__original, resource)
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +119,7 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.lower())
+        XOrganizationalExtension().assign_role(self.__original, role)
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +137,7 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.lower())
+        XOrganizationalExtension().assign_group(self.__original, group)
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
-- 
2.43.0


From 09c0615c42027fdc206170169122823f4c32f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:47 +0000
Subject: [PATCH 30/57] fix: the defined attributes include those added since
 they were last asked for

---
 src/opyenxes/extension/XExtension.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtension.py b/src/opyenxes/extension/XExtension.py
index 50fdeee..15f8baa 100644
--- a/src/opyenxes/extension/XExtension.py
+++ b/src/opyenxes/extension/XExtension.py
@@ -59,12 +59,11 @@ class XExtension:
         :return: The collection of attributes defined by this extension
         :rtype: set
         """
-        if self.__all_attributes is None:
-            self.__all_attributes = set()
-            self.__all_attributes.update(self.__log_attributes)
-            self.__all_attributes.update(self.__trace_attributes)
-            self.__all_attributes.update(self.__event_attributes)
-            self.__all_attributes.update(self.__meta_attributes)
+        self.__all_attributes = set()
+        self.__all_attributes.update(self.__log_attributes)
+        self.__all_attributes.update(self.__trace_attributes)
+        self.__all_attributes.update(self.__event_attributes)
+        self.__all_attributes.update(self.__meta_attributes)
 
         return self.__all_attributes
 
-- 
2.43.0


From 13329ea62e33dc7ffcd9d64f21960252880d8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:54 +0000
Subject: [PATCH 31/57] fix: an extension registered again for its URI replaces
 the earlier one in every lookup

---
 src/opyenxes/extension/XExtensionManager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9dbe634..44ae86f 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -41,8 +41,11 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         :type extension: `XExtension`
         """
         self.__extension_map[extension.get_uri()] = extension
-        if extension not in self.__extension_list:
+        index = self.get_index(extension)
+        if index == -1:
             self.__extension_list.append(extension)
+        else:
+            self.__extension_list[index] = extension
 
     def get_by_uri(self, uri):
         """Retrieves an extension instance by its unique URI. If the extension
-- 
2.43.0


From f71241b8a313868b2c8b820766b6fbb7ea97ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:14 +0000
Subject: [PATCH 32/57] fix: an extension attribute belongs to the level it is
 declared in

---
 src/opyenxes/extension/XExtensionParser.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index b5530dc..24b617d 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -76,37 +76,31 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 self.__xAttributes = self.__extension.get_meta_attributes()
 
             elif tag_name.lower() == "string":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_literal(mapping, "DEFAULT", self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "date":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_timestamp(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "int":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_discrete(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "float":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_continuous(mapping, 0.0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "boolean":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_boolean(mapping, False, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "id":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_id(mapping, XIDFactory.create_id(), self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
-- 
2.43.0


From 90da2efcae01c79d4405b85ea770dea4dcf722b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:22 +0000
Subject: [PATCH 33/57] fix: reading an extension definition does not need the
 network

---
 src/opyenxes/extension/XExtensionParser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 24b617d..0a56006 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -5,7 +5,7 @@ from xml.sax import parse as xml_parse, parseString
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.id.XIDFactory import XIDFactory
-from urllib import request, parse, error
+from urllib import request, parse
 import os
 
 
@@ -59,11 +59,6 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 mapping = attributes.getValue("name")
                 name = attributes.getValue("prefix")
                 x_uri = parse.urlparse(attributes.getValue("uri"))
-                try:
-                    request.urlopen(attributes.getValue("uri"))
-                except error.URLError:
-                    return
-
                 self.__extension = XExtension(mapping, name, x_uri)
 
             elif tag_name.lower() == "log":
-- 
2.43.0


From 1bb9e4bd93b76310e7bc514d198106c3edf49828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:22 +0000
Subject: [PATCH 34/57] fix: the connection an extension definition is read
 from is closed

---
 src/opyenxes/extension/XExtensionParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 0a56006..bdc3c96 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -133,5 +133,6 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 xml_parse(data, handler)
 
         elif not os.path.isdir(file):
-            parseString(request.urlopen(file).read(), handler)
+            with request.urlopen(file) as data:
+                parseString(data.read(), handler)
         return handler.get_extension()
-- 
2.43.0


From 0d008ac531d2efae08ac084a626ee99820428084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:09 +0000
Subject: [PATCH 35/57] fix: the text of a timestamp carries its UTC offset,
 whatever the zone is called

---
 src/opyenxes/model/XAttributeTimestamp.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 34ff9d2..b03dc07 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -88,15 +88,7 @@ class XAttributeTimestamp(XAttribute):
                 self.__value.microsecond // 1000,
                 "Z")
 
-        return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
-            self.__value.year,
-            self.__value.month,
-            self.__value.day,
-            self.__value.hour,
-            self.__value.minute,
-            self.__value.second,
-            self.__value.microsecond // 1000,
-            self.__value.tzname().replace("UTC", "").replace("+00:00", "Z").replace("-00:00", "Z"))
+        return self.__value.isoformat(timespec="milliseconds").replace("+00:00", "Z")
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
-- 
2.43.0


From c3cf8cf3d766bbd689ad6c0777f00ca1b99d0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:10 +0000
Subject: [PATCH 36/57] fix: get_value_millis keeps the milliseconds and
 respects the time zone

---
 src/opyenxes/model/XAttributeTimestamp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index b03dc07..ecad1db 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,7 +1,6 @@
 from opyenxes.model.XAttribute import XAttribute
 from datetime import datetime
 import platform
-import time
 
 
 class XAttributeTimestamp(XAttribute):
@@ -33,7 +32,7 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return time.mktime(self.__value.timetuple()) * 1000
+        return round(self.__value.timestamp() * 1000)
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
-- 
2.43.0


From 6d0ecf4f91664ee970f1e81474caef6a30b7a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:50 +0000
Subject: [PATCH 37/57] fix: parsers recognise a file suffix in any case

---
 src/opyenxes/data_in/XMxmlParser.py  | 2 +-
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cdb48e2..bc6cd0b 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -70,7 +70,7 @@ class XMxmlParser:
         """
         i = len(name) - len(suffix)
         if i > 0:
-            return suffix in name[i:]
+            return suffix in name[i:].lower()
         return False
 
     class MxmlHandler(ContentHandler):
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index df2fc6f..bdd4a2b 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -64,7 +64,7 @@ class XesXmlParser:
         i = len(name) - len(suffix)
 
         if i > 0:
-            return suffix in name[i:]
+            return suffix in name[i:].lower()
         return False
 
     class XesXmlHandler(ContentHandler):
-- 
2.43.0


From f3d1160d4f1ecb276624f020aca8234ffa2bd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:51 +0000
Subject: [PATCH 38/57] fix: XesXmlGZIPParser accepts .xez, the suffix its
 serializer announces

---
 src/opyenxes/data_in/XesXmlGZIPParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlGZIPParser.py b/src/opyenxes/data_in/XesXmlGZIPParser.py
index 4a93e55..e7e14cd 100644
--- a/src/opyenxes/data_in/XesXmlGZIPParser.py
+++ b/src/opyenxes/data_in/XesXmlGZIPParser.py
@@ -20,7 +20,7 @@ class XesXmlGZIPParser(XesXmlParser):
         :return: Whether this parser can handle the given file.
         :rtype: bool
         """
-        return super().ends_with_ignore_case(file, ".xes.gz")
+        return super().ends_with_ignore_case(file, ".xez") or super().ends_with_ignore_case(file, ".xes.gz")
 
     def parse(self, file):
         """Parses a log from the given input stream, which is supposed to
-- 
2.43.0


From df52fc3be909a36eb7401d5a03b66e00c7062b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:52 +0000
Subject: [PATCH 39/57] fix: parsers build the log with the factory they were
 given

---
 src/opyenxes/data_in/XMxmlParser.py  | 19 ++++++++++---------
 src/opyenxes/data_in/XesXmlParser.py | 27 ++++++++++++++-------------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index bc6cd0b..6774cd7 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -51,7 +51,7 @@ class XMxmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XMxmlParser.MxmlHandler()
+        handler = XMxmlParser.MxmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -77,8 +77,9 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory):
             super().__init__()
+            self.__factory = factory
             self.__buffer = list()
             self.__logs = list()
             self.__currentProcess = None
@@ -115,13 +116,13 @@ class XMxmlParser:
                 if tag_name == "Source":
                     self.__sourceOpen = True
                     description_string = attributes.get("program")
-                    self.__sourceAttribute = XMxmlParser().factory.create_attribute_literal("source", description_string, None)
+                    self.__sourceAttribute = self.__factory.create_attribute_literal("source", description_string, None)
                     self.__add_model_reference__(attributes, self.__sourceAttribute)
                 elif tag_name == "Process":
                     description_string = attributes.get("id")
                     description = attributes.get("description")
 
-                    self.__currentProcess = XMxmlParser().factory.create_log()
+                    self.__currentProcess = self.__factory.create_log()
                     self.__currentProcess.get_extensions().add(XConceptExtension())
                     self.__currentProcess.get_extensions().add(XOrganizationalExtension())
                     self.__currentProcess.get_extensions().add(XLifecycleExtension())
@@ -135,13 +136,13 @@ class XMxmlParser:
 
                     if description and len(description.lower()) > 0:
 
-                        description1 = XMxmlParser().factory.create_attribute_literal("description", description, None)
+                        description1 = self.__factory.create_attribute_literal("description", description, None)
                         self.__currentProcess.get_attributes()[description1.get_key()] = description1
 
                     self.__add_model_reference__(attributes, self.__currentProcess)
 
                 elif tag_name == "ProcessInstance":
-                    self.__currentInstance = XMxmlParser().factory.create_trace()
+                    self.__currentInstance = self.__factory.create_trace()
                     name = attributes.get("id")
                     if name is None:
                         name = "None"
@@ -150,16 +151,16 @@ class XMxmlParser:
                     description_string = attributes.get("description")
 
                     if description_string and len(description_string.strip()) > 0:
-                        description2 = XMxmlParser().factory.create_attribute_literal("description", description_string, None)
+                        description2 = self.__factory.create_attribute_literal("description", description_string, None)
                         self.__currentInstance.get_attributes()[description2.get_key()] = description2
 
                     self.__add_model_reference__(attributes, self.__currentInstance)
 
                 elif tag_name == "AuditTrailEntry":
-                    self.__entry = XMxmlParser().factory.create_event()
+                    self.__entry = self.__factory.create_event()
 
                 elif tag_name == "Attribute":
-                    self.__genericAttribute = XMxmlParser().factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
+                    self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
                     self.__add_model_reference__(attributes, self.__genericAttribute)
 
                 elif tag_name == "EventType":
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index bdd4a2b..dec3b0d 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -43,7 +43,7 @@ class XesXmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XesXmlParser.XesXmlHandler()
+        handler = XesXmlParser.XesXmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -71,8 +71,9 @@ class XesXmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory):
             super().__init__()
+            self.__factory = factory
             self.__log = None
             self.__trace = None
             self.__event = None
@@ -102,13 +103,13 @@ class XesXmlParser:
             tag_name = element_name.lower()
             if tag_name not in ["string", "date", "int", "float", "boolean", "id", "list", "container"]:
                 if tag_name == "event":
-                    self.__event = XesXmlParser().factory.create_event()
+                    self.__event = self.__factory.create_event()
                     self.__attributable_stack.append(self.__event)
                 elif tag_name == "trace":
-                    self.__trace = XesXmlParser().factory.create_trace()
+                    self.__trace = self.__factory.create_trace()
                     self.__attributable_stack.append(self.__trace)
                 elif tag_name == "log":
-                    self.__log = XesXmlParser().factory.create_log()
+                    self.__log = self.__factory.create_log()
                     for attr_name in attributes.getNames():
                         if attr_name.startswith('xes.') or \
                         attr_name.startswith('openxes.'):
@@ -165,32 +166,32 @@ class XesXmlParser:
                 attribute = None
 
                 if tag_name == "string":
-                    attribute = XesXmlParser().factory.create_attribute_literal(name, value, keys_list)
+                    attribute = self.__factory.create_attribute_literal(name, value, keys_list)
 
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
                         return
-                    attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
+                    attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
                 elif tag_name == "int":
-                    attribute = XesXmlParser().factory.create_attribute_discrete(name, int(value), keys_list)
+                    attribute = self.__factory.create_attribute_discrete(name, int(value), keys_list)
 
                 elif tag_name == "float":
-                    attribute = XesXmlParser().factory.create_attribute_continuous(name, float(value), keys_list)
+                    attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
                     var16 = True if value.lower() == "true" else False
-                    attribute = XesXmlParser().factory.create_attribute_boolean(name, var16, keys_list)
+                    attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-                    attribute = XesXmlParser().factory.create_attribute_id(name, XID.parse(value), keys_list)
+                    attribute = self.__factory.create_attribute_id(name, XID.parse(value), keys_list)
 
                 elif tag_name == "list":
-                    attribute = XesXmlParser().factory.create_attribute_list(name, keys_list)
+                    attribute = self.__factory.create_attribute_list(name, keys_list)
 
                 elif tag_name == "container":
-                    attribute = XesXmlParser().factory.create_attribute_container(name, keys_list)
+                    attribute = self.__factory.create_attribute_container(name, keys_list)
 
                 if attribute is not None:
                     self.__attribute_stack.append(attribute)
-- 
2.43.0


From 9c40a515798190cb5bbe4fd9ac6e61ada43d521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:02 +0000
Subject: [PATCH 40/57] fix: an invalid date costs only its own attribute, not
 its parent or the log

---
 src/opyenxes/data_in/XesXmlParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index dec3b0d..aa798b6 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -171,6 +171,8 @@ class XesXmlParser:
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
+                        self.__attribute_stack.append(None)
+                        self.__attributable_stack.append(None)
                         return
                     attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
@@ -227,6 +229,10 @@ class XesXmlParser:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
 
+                if i is None or self.__attributable_stack[-1] is None:
+                    # an attribute with an invalid date, or nested in one
+                    return
+
                 if self.__globals is not None:
 
                     self.__globals.append(i)
-- 
2.43.0


From 150c1537ddae64cab278e0b4bc655c119dc33ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:03 +0000
Subject: [PATCH 41/57] fix: attributes nested in a global attribute stay
 nested

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index aa798b6..5bbbdeb 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -233,7 +233,7 @@ class XesXmlParser:
                     # an attribute with an invalid date, or nested in one
                     return
 
-                if self.__globals is not None:
+                if self.__globals is not None and len(self.__attribute_stack) == 0:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From 906d8e839b9803a87997e5b974b14a3835797797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:14 +0000
Subject: [PATCH 42/57] fix: an unknown extension declared without URI no
 longer aborts reading

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 5bbbdeb..75f7cab 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -131,7 +131,7 @@ class XesXmlParser:
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
                     else:
-                        print("Unknown extension: " + keys)
+                        print("Unknown extension: " + str(keys))
 
                 elif tag_name == "global":
 
-- 
2.43.0


From f1f429182c8f25aa3bc3366704073732fb7b3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:15 +0000
Subject: [PATCH 43/57] fix: unquoted tokens are separated by blanks

---
 src/opyenxes/utils/XTokenHelper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XTokenHelper.py b/src/opyenxes/utils/XTokenHelper.py
index 9559550..bbeff25 100644
--- a/src/opyenxes/utils/XTokenHelper.py
+++ b/src/opyenxes/utils/XTokenHelper.py
@@ -2,8 +2,11 @@ class XTokenHelper:
 
     @staticmethod
     def extract_tokens(token_string):
-        keys = list(map(lambda elem: elem.strip(), token_string.split("'")))
-        return list(filter(lambda key: key != '', keys))
+        keys = list()
+        for index, part in enumerate(token_string.split("'")):
+            # every second part is quoted; the others hold blank separated tokens
+            keys.extend([part] if index % 2 == 1 else part.split())
+        return list(filter(lambda key: key.strip() != '', keys))
 
     @staticmethod
     def format_token(token):
-- 
2.43.0


From 31ef970ff3d32cd8a93ac0f0bb5a1618d4d1734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:13 +0000
Subject: [PATCH 44/57] fix: a timestamp whose UTC offset is far out of range
 is invalid, not fatal

---
 src/opyenxes/utils/XsDateTimeConversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8011840..2750339 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -42,6 +42,6 @@ def parse_date_time(date_time):
         time = time.replace(tzinfo=timezone(timedelta(minutes=int(minute), hours=int(hours))))
         return time
 
-    except ValueError:
+    except (ValueError, OverflowError):
         print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From 399a92de6834687b22e10af4b39a535fb944fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 45/57] fix: MXML elements are written under the names the
 format and the parser use

---
 src/opyenxes/data_out/XMxmlSerializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 7e1a439..45f6c76 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -93,7 +93,7 @@ class XMxmlSerializer:
                     if originator_attr in self.__known_types:
                         type_.text = originator_attr
                     else:
-                        type_.set("unknownType", type_attr.get_value())
+                        type_.set("unknowntype", type_attr.get_value())
                         type_.text = "unknown"
 
                 else:
@@ -107,13 +107,13 @@ class XMxmlSerializer:
                     originator_attr_1 = event.get_attributes().get("org:group")
 
                 if originator_attr_1 is not None:
-                    timestamp_attr = Et.SubElement(ate, "originator")
+                    timestamp_attr = Et.SubElement(ate, "Originator")
                     self.add_model_reference(originator_attr_1, timestamp_attr)
                     timestamp_attr.text = (originator_attr_1.get_value())
 
                 timestamp_attr_1 = event.get_attributes().get("time:timestamp")
                 if timestamp_attr_1:
-                    timestamp = Et.SubElement(ate, "timestamp")
+                    timestamp = Et.SubElement(ate, "Timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
                     date = timestamp_attr_1.get_value()
                     timestamp.text = str(date)
@@ -153,7 +153,7 @@ class XMxmlSerializer:
 
         for attribute in attributes:
             if attribute.get_key() == "semantic:modelReference":
-                attribute_tag = Et.SubElement(node, "attribute")
+                attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
 
-- 
2.43.0


From 2cda427c33ee0fdecc7f0bace0b061867f3851a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:42 +0000
Subject: [PATCH 46/57] fix: MXML data holds all attributes but model
 references, not only those

---
 src/opyenxes/data_out/XMxmlSerializer.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 45f6c76..3e77d04 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -152,7 +152,7 @@ class XMxmlSerializer:
             node = tag
 
         for attribute in attributes:
-            if attribute.get_key() == "semantic:modelReference":
+            if attribute.get_key() != "semantic:modelReference":
                 attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
@@ -165,12 +165,8 @@ class XMxmlSerializer:
                 sub_attributes = attribute.get_attributes().values()
 
                 if len(sub_attributes) > 0:
-                    sub_key_prefix = attribute.get_key()
-
-                    if len(sub_key_prefix) > 0:
-                        sub_key_prefix = key_prefix + ":" + sub_key_prefix
-
-                    self.add_attribute(node, sub_key_prefix, sub_attributes)
+                    sub_key_prefix = key_prefix + attribute.get_key() + ":"
+                    self.add_attribute(node, sub_attributes, sub_key_prefix)
 
     @staticmethod
     def add_model_reference(element, target):
-- 
2.43.0


From 4d6ecdfda99701edefcc5d52c5d1657d4b11c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:42 +0000
Subject: [PATCH 47/57] fix: timestamps are written to MXML in the form the
 parser reads

---
 src/opyenxes/data_out/XMxmlSerializer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 3e77d04..912d565 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -115,8 +115,7 @@ class XMxmlSerializer:
                 if timestamp_attr_1:
                     timestamp = Et.SubElement(ate, "Timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
-                    date = timestamp_attr_1.get_value()
-                    timestamp.text = str(date)
+                    timestamp.text = str(timestamp_attr_1)
 
         text = minidom.parseString(Et.tostring(root, "utf-8"))
         c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-- 
2.43.0


From 8a7b8d79c6b84adf7b7ca4dfe2dfeed1ee591670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 48/57] fix: MXML data of a trace or log without events yet
 belongs to that trace or log

---
 src/opyenxes/data_in/XMxmlParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 6774cd7..24c9925 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -230,11 +230,11 @@ class XMxmlParser:
                     originator = "".join(self.__buffer).strip()
                     if len(originator) > 0:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
-                        if self.__entry:
+                        if self.__entry is not None:
                             self.__entry.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentInstance:
+                        elif self.__currentInstance is not None:
                             self.__currentInstance.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentProcess:
+                        elif self.__currentProcess is not None:
                             self.__currentProcess.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                         elif self.__sourceOpen:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-- 
2.43.0


From 15a449903267068e997a8a10657a77679facf0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:44 +0000
Subject: [PATCH 49/57] fix: the end of an MXML Source element is recognised

---
 src/opyenxes/data_in/XMxmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 24c9925..5ddd619 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -201,7 +201,7 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Process":
+            elif tag_name == "Source":
                 self.__sourceOpen = False
 
             elif tag_name == "ProcessInstance":
-- 
2.43.0


From db2c6624c999915f7a61e3197615937bf14cef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 50/57] fix: an empty MXML Originator gives no resource, not a
 placeholder

---
 src/opyenxes/data_in/XMxmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 5ddd619..6292034 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -266,7 +266,7 @@ class XMxmlParser:
                     if len(originator) > 0:
                         self.__originatorAttribute.set_value(originator)
 
-                    self.__entry.get_attributes()[self.__originatorAttribute.get_key()] = self.__originatorAttribute
+                        self.__entry.get_attributes()[self.__originatorAttribute.get_key()] = self.__originatorAttribute
                     self.__originatorAttribute = None
 
             self.__buffer.clear()
-- 
2.43.0


From 3401b016e33b473ec12fa06adef12c67f87e334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 51/57] fix: support and extension cache folders may exist
 already

---
 src/opyenxes/utils/XRuntimeUtils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/utils/XRuntimeUtils.py b/src/opyenxes/utils/XRuntimeUtils.py
index dfb5440..cbb43ef 100644
--- a/src/opyenxes/utils/XRuntimeUtils.py
+++ b/src/opyenxes/utils/XRuntimeUtils.py
@@ -66,13 +66,13 @@ class XRuntimeUtils:
         home_dir = os.path.expanduser(os.getenv('USERPROFILE'))
         dir_name = "OpenXES"
         if self.is_running_windows():
-            os.makedirs(home_dir + "\\" + dir_name)
+            os.makedirs(home_dir + "\\" + dir_name, exist_ok=True)
             return home_dir + "\\" + dir_name + "\\"
         elif self.is_running_mac_os_x():
-            os.makedirs(home_dir + "/Library/Application Support/" + dir_name)
+            os.makedirs(home_dir + "/Library/Application Support/" + dir_name, exist_ok=True)
             return home_dir + "/Library/Application Support/" + dir_name + "/"
         else:
-            os.makedirs(home_dir + "/." + dir_name)
+            os.makedirs(home_dir + "/." + dir_name, exist_ok=True)
             return home_dir + "/." + dir_name + "/"
 
     def get_extension_cache_folder(self):
@@ -82,5 +82,5 @@ class XRuntimeUtils:
         :rtype: str
         """
         ext_folder = self.get_support_folder() + "ExtensionCache"
-        os.makedirs(ext_folder)
+        os.makedirs(ext_folder, exist_ok=True)
         return ext_folder
-- 
2.43.0


From e586f58ac43da1994f080606db66c9b190e59d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 52/57] fix: the support folder is found where USERPROFILE is
 not set

---
 src/opyenxes/utils/XRuntimeUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XRuntimeUtils.py b/src/opyenxes/utils/XRuntimeUtils.py
index cbb43ef..794e1d2 100644
--- a/src/opyenxes/utils/XRuntimeUtils.py
+++ b/src/opyenxes/utils/XRuntimeUtils.py
@@ -63,7 +63,7 @@ class XRuntimeUtils:
         :return: The path of the platform-dependent OpenXES support folder.
         :rtype: str
         """
-        home_dir = os.path.expanduser(os.getenv('USERPROFILE'))
+        home_dir = os.path.expanduser("~")
         dir_name = "OpenXES"
         if self.is_running_windows():
             os.makedirs(home_dir + "\\" + dir_name, exist_ok=True)
-- 
2.43.0


From e807dc62bba4418134df0eda215f57f023390d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 53/57] fix: caching an extension definition writes its bytes
 and releases both streams

---
 src/opyenxes/extension/XExtensionManager.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 44ae86f..ae370db 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -149,14 +149,11 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         cache_file = XRuntimeUtils().get_extension_cache_folder() + os.path.sep + filename
 
         try:
-            bis = request.urlopen(uri.geturl())
-            bos = open(cache_file, "w")
-
-            file = bis.read(1024)
-            while file != b"":
-                bos.write(file)
+            with request.urlopen(uri.geturl()) as bis, open(cache_file, "wb") as bos:
                 file = bis.read(1024)
-            bos.close()
+                while file != b"":
+                    bos.write(file)
+                    file = bis.read(1024)
             XLogging().log("Cached XES extension \\'" + uri.geturl() + "\\'",
                            XLogging.Importance.DEBUG)
 
-- 
2.43.0


From 110e26e825e945f0a23a89f829e7a904e0f6dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 54/57] fix: an extension whose URI ends with a slash can be
 cached

---
 src/opyenxes/extension/XExtensionManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index ae370db..8b87ad6 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -141,7 +141,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         uri_str = uri.geturl()
         if uri_str[-1] == "/":
-            uri_str = uri_str[(0, len(uri_str) - 1)]
+            uri_str = uri_str[:-1]
         filename = uri_str[uri_str.rindex(chr(47)):]
         if not filename.endswith(".xesext"):
             filename += ".xesext"
-- 
2.43.0


From 22a0b75cd2216b67c1fe47ccbf29f8493dc1db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 55/57] fix: cached extension definitions are looked for in the
 cache folder

---
 src/opyenxes/extension/XExtensionManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 8b87ad6..f0109fa 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -168,7 +168,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         min_modified = (lambda: int(round(time.time() * 1000)))() - 2592000000
         ext_folder = XRuntimeUtils().get_extension_cache_folder()
-        ext_files = list(filter(os.path.isfile, os.listdir(ext_folder)))
+        ext_files = [name for name in os.listdir(ext_folder) if os.path.isfile(os.path.join(ext_folder, name))]
         if len(ext_files) == 0:
             XLogging().log("Extension caching disabled (Could not access cache"
                            " directory)!",
-- 
2.43.0


From 937067fa5f67b2515fc6e012678841578826f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:25 +0000
Subject: [PATCH 56/57] fix: a timestamp with more than six digits of a second
 is valid, not dropped

---
 src/opyenxes/utils/XsDateTimeConversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 2750339..e56538a 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -35,6 +35,9 @@ def parse_date_time(date_time):
             minute = 0
 
         if '.' in value:
+            seconds, fraction = value.split('.', 1)
+            if fraction.isdigit():
+                value = seconds + '.' + fraction[:6]
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
         else:
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From 5672387278fef3a14acae62c99f634faba37a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:26 +0000
Subject: [PATCH 57/57] fix: a Z that is not at the end of a timestamp makes it
 invalid

---
 src/opyenxes/utils/XsDateTimeConversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index e56538a..cbdb932 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -12,8 +12,8 @@ def parse_date_time(date_time):
     try:
         value = date_time
         relative_zone = ""
-        if "Z" in value:
-            value = value.replace("Z", "")
+        if value.endswith("Z"):
+            value = value[:-1]
             relative_zone = "Z"
         elif "+" in value:
             relative_zone = value[value.index("+"):]
-- 
2.43.0

