From c9361f9475cbc60c513d20e7838955985b0daa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 01/57] fix: encodeSize() corrupted sizes too big for an
 explicit length

A size that did not fit the requested descriptor length was OR'ed with the
length marker and written as a different size (or as 'unknown').
---
 ebmlite/encoding.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index f7b9e53..d74f556 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -87,7 +87,13 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
         length = 1 if (length is None or length == -1) else length
         return b'\xff' * length
 
-    length = getLength(val) if (length is None or length == -1) else length
+    if length is None or length == -1:
+        length = getLength(val)
+    elif val > (1 << (7 * length)) - 2:
+        # All bits set is the reserved 'unknown' size; larger values would
+        # overwrite the bits marking the length of the descriptor.
+        raise ValueError("Cannot encode element size %s in %s bytes" % (val, length))
+
     try:
         prefix = LENGTH_PREFIXES[length]
         return encodeUInt(val | prefix, length)
-- 
2.43.0


From f4f259f0d400a20172b2007bd3e912497573d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 02/57] fix: createID() never returned the maximum ID

Both the ID class' range and maxId are documented as inclusive.
---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8dd6b97..e053280 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -73,7 +73,7 @@ def createID(schema: core.Schema,
     exclude = set(exclude).union(schema.elements.keys())
 
     result = []
-    for i in (x for x in range(*idrange) if x not in exclude):
+    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
         if len(result) == count:
             break
         result.append(i)
-- 
2.43.0


From 835293f08cd5eee67650602c78291bbac6c56b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 03/57] fix: encodeUnicode() failed on the bytes it accepts

bytes and bytearray passed the type check but raised AttributeError.
---
 ebmlite/encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index d74f556..c305038 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -290,7 +290,8 @@ def encodeUnicode(val: str, length: Optional[int] = None) -> bytes:
     if not isinstance(val, (bytearray, bytes, str)):
         raise TypeError('Cannot encode {} {!r} as string'.format(type(val).__name__, val))
 
-    val = val.encode('utf_8')
+    if isinstance(val, str):
+        val = val.encode('utf_8')
 
     if length is not None:
         val = val[:length]
-- 
2.43.0


From d1544996fd636c36bc646000d9f578b6fa10de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 04/57] fix: truncating Unicode elements could make them
 unreadable

A string longer than the element's explicit length could be cut within a
multi-byte character; reading it back raised UnicodeDecodeError.
---
 ebmlite/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index aa9fea2..e9e64ad 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -406,6 +406,9 @@ class UnicodeElement(StringElement):
     @classmethod
     def encodePayload(cls, data: str, length: int = None) -> bytes:
         """ Type-specific payload encoder for Unicode string elements. """
+        if length is not None and isinstance(data, str):
+            # Don't cut a multi-byte character in two: it could not be read.
+            data = data.encode('utf_8')[:length].decode('utf_8', 'ignore')
         return encoding.encodeUnicode(data, length)
 
 
-- 
2.43.0


From 6799cd0ca253ae3bed6b0b926ac18f2047fa0ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 05/57] fix: global elements ended 'infinite' masters without
 declared children

_isValidChild() disregarded the schema's globals (e.g. Void) if a master
element declares no children of its own.
---
 ebmlite/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index e9e64ad..acc1364 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -588,10 +588,10 @@ class MasterElement(Element):
             explicitly specified as a child element or a 'global' in the
             schema?
         """
-        if not cls.children:
-            return False
+        if cls.children and elId in cls.children:
+            return True
 
-        return elId in cls.children or elId in cls.schema.globals
+        return elId in cls.schema.globals
 
 
     @property
-- 
2.43.0


From efb7a8a35117f0c1eeec5d309c98a435dd7c3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 06/57] fix: 'infinite' elements with an explicit lengthSize
 were unreadable

The descriptor was written as lengthSize bytes of 0xFF, but 0xFF alone is a
complete (1 byte) 'unknown' size: the rest was read as the payload.
---
 ebmlite/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index acc1364..44c990a 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -262,9 +262,18 @@ class Element(object):
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
         payload = cls.encodePayload(value, length=length)
-        length = None if infinite else (length or len(payload))
+        length = length or len(payload)
         encId = encoding.encodeId(cls.id)
-        return encId + encoding.encodeSize(length, lengthSize) + payload
+        if infinite:
+            # 'Unknown' size: the length marker followed by all bits set.
+            if lengthSize is None or lengthSize == -1:
+                lengthSize = 1
+            elif not 1 <= lengthSize <= 8:
+                raise ValueError("Cannot encode element size of length %s" % lengthSize)
+            encSize = encoding.encodeUInt((2 << (7 * lengthSize)) - 1, lengthSize)
+        else:
+            encSize = encoding.encodeSize(length, lengthSize)
+        return encId + encSize + payload
 
     def dump(self):
         """ Dump this element's value as nested dictionaries, keyed by
-- 
2.43.0


From 4621b561e5cd7f1af598c278ccbb3a65d08aec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 07/57] fix: explicit length of master elements wrote a wrong
 size

The given length was written as the element's size, regardless of the size
of its payload. Refuse lengths that can't be honoured.
---
 ebmlite/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 44c990a..850965d 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -262,7 +262,10 @@ class Element(object):
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
         payload = cls.encodePayload(value, length=length)
-        length = length or len(payload)
+        if length is not None and len(payload) != length:
+            # e.g. a master element: its contents are neither padded nor cut.
+            raise ValueError("Cannot encode %d byte payload of %s to length %d"
+                             % (len(payload), cls.name, length))
         encId = encoding.encodeId(cls.id)
         if infinite:
             # 'Unknown' size: the length marker followed by all bits set.
@@ -272,7 +275,7 @@ class Element(object):
                 raise ValueError("Cannot encode element size of length %s" % lengthSize)
             encSize = encoding.encodeUInt((2 << (7 * lengthSize)) - 1, lengthSize)
         else:
-            encSize = encoding.encodeSize(length, lengthSize)
+            encSize = encoding.encodeSize(len(payload), lengthSize)
         return encId + encSize + payload
 
     def dump(self):
-- 
2.43.0


From b15d164c4a0f19988e18308187adb7526a42e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 08/57] fix: master elements could not be encoded from
 name/value pairs

A list of name/value tuples, a documented form of data, was taken for a list
of multiple elements and failed.
---
 ebmlite/core.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 850965d..853cf7e 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -261,6 +261,17 @@ class Element(object):
             for v in value:
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
+        return cls._encodeElement(value, length, lengthSize, infinite)
+
+    @classmethod
+    def _encodeElement(cls,
+                       value: Any,
+                       length: Optional[int],
+                       lengthSize: Optional[int],
+                       infinite: bool) -> bytes:
+        """ Encode a single EBML element, i.e. `value` is not a list of values.
+            See `Element.encode()`.
+        """
         payload = cls.encodePayload(value, length=length)
         if length is not None and len(payload) != length:
             # e.g. a master element: its contents are neither padded nor cut.
@@ -542,6 +553,15 @@ class UnknownElement(BinaryElement):
 # ==============================================================================
 
 
+def _isPair(item: Any) -> bool:
+    """ Is an item in a list of data for a master element (or document) a
+        name/value pair, rather than the data of a whole element?
+    """
+    return (isinstance(item, tuple)
+            and len(item) == 2
+            and not isinstance(item[0], (dict, list, tuple)))
+
+
 class MasterElement(Element):
     """ Base class for an EBML 'master' element, a container for other
         elements.
@@ -767,6 +787,11 @@ class MasterElement(Element):
                                          infinite=infinite))
             return result
 
+        if isinstance(data, (list, tuple)) and data and all(map(_isPair, data)):
+            # Name/value pairs: the contents of one element.
+            return cls._encodeElement(data, cls.length if length is None else length,
+                                      lengthSize, infinite)
+
         # TODO: Remove 'infinite' kwarg from `Element.encode()` and handle it
         # here, since it only applied to Master elements.
         return super(MasterElement, cls).encode(data, length=length,
-- 
2.43.0


From fd17a221b6904c4620e0e029923ae6b794a03358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 09/57] fix: list of lists bypassed the 'multiple' check of
 master elements

Several values for a master element that may only occur once were refused,
unless each was given as a list of name/value pairs.
---
 ebmlite/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 853cf7e..d0076be 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -781,6 +781,9 @@ class MasterElement(Element):
             # List of lists: special case for 'master' elements.
             # Encode as multiple 'master' elements.
             result = bytearray()
+            if not cls.multiple:
+                raise ValueError("Multiple %s elements per parent not permitted"
+                                 % cls.name)
             for v in data:
                 result.extend(cls.encode(v, length=length,
                                          lengthSize=lengthSize,
-- 
2.43.0


From 2b82ad629c242d29f4568ff4c87afc1c22a3a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 10/57] fix: documents could not be encoded from name/value
 pairs

Document.encode(), Schema.encode() and Schema.encodes() failed given a list
of name/value tuples, a documented form of data.
---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index d0076be..22710e1 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1058,7 +1058,8 @@ class Document(MasterElement):
                 raise TypeError('Cannot encode multiple Documents')
             else:
                 for v in data:
-                    stream.write(cls.encodePayload(v))
+                    # Items may be name/value tuples, or data themselves
+                    stream.write(cls.encodePayload([v] if _isPair(v) else v))
         else:
             stream.write(cls.encodePayload(data))
 
-- 
2.43.0


From 2a894de3f7c5ce097687240090bdac4e1e5b2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 11/57] fix: MasterElement.gc() did not count its own value

Non-recursive clearing returned 0, even if it cleared a cached value.
---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 22710e1..d272fbf 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -723,8 +723,9 @@ class MasterElement(Element):
         """
         cleared = 0
         if self._value is not None:
+            cleared = 1
             if recurse:
-                cleared = sum(ch.gc(recurse) for ch in self._value) + 1
+                cleared += sum(ch.gc(recurse) for ch in self._value)
             self._value = None
         return cleared
 
-- 
2.43.0


From 562ff48068a31d94f56978c1b7777337afcb0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 12/57] fix: clearing caches broke threads reading the same
 elements

If another thread called gc() between checking and using the cached value,
`value` returned None and len() and gc() raised TypeError.
---
 ebmlite/core.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index d272fbf..2080f5f 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -186,11 +186,12 @@ class Element(object):
     @property
     def value(self):
         """ Parse and cache the element's value. """
-        if self._value is not None:
-            return self._value
-        self.stream.seek(self.payloadOffset)
-        self._value = self.parse(self.stream, self.size)
-        return self._value
+        # Note: another thread may clear `_value` (see `gc()`) at any time.
+        value = self._value
+        if value is None:
+            self.stream.seek(self.payloadOffset)
+            value = self._value = self.parse(self.stream, self.size)
+        return value
 
     def getRaw(self) -> bytes:
         """ Get the element's raw binary data, including EBML headers.
@@ -691,8 +692,9 @@ class MasterElement(Element):
         try:
             return self._length
         except AttributeError:
-            if self._value is not None:
-                self._length = len(self._value)
+            value = self._value  # Another thread may clear `_value`
+            if value is not None:
+                self._length = len(value)
             else:
                 n = 0  # In case there's nothing to enumerate
                 for n, _el in enumerate(self.__iter__(nocache=True), 1):
@@ -704,10 +706,11 @@ class MasterElement(Element):
     def value(self) -> List[Element]:
         """ Parse and cache the element's value.
         """
-        if self._value is not None:
-            return self._value
-        self._value = list(self)
-        return self._value
+        # Note: another thread may clear `_value` (see `gc()`) at any time.
+        value = self._value
+        if value is None:
+            value = self._value = list(self)
+        return value
 
     def __getitem__(self, *args) -> Element:
         # TODO: Parse only the requested item(s), like `Document`
@@ -722,10 +725,11 @@ class MasterElement(Element):
             re-read from the file.
         """
         cleared = 0
-        if self._value is not None:
+        value = self._value  # Another thread may clear `_value`
+        if value is not None:
             cleared = 1
             if recurse:
-                cleared += sum(ch.gc(recurse) for ch in self._value)
+                cleared += sum(ch.gc(recurse) for ch in value)
             self._value = None
         return cleared
 
-- 
2.43.0


From cea573bc6799156878a29a48ba27909a97d3939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 13/57] fix: toXml() of documents using a parsed schema could
 not be written

Schemata created by parseSchema() have no filename; the None put into the
XML made ElementTree refuse to serialise it.
---
 ebmlite/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index e053280..0c4fda9 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -176,8 +176,8 @@ def toXml(el: core.Element,
         xmlEl = ET.SubElement(parent, elname)
     if isinstance(el, core.Document):
         xmlEl.set('source', el.filename)
-        xmlEl.set('schemaName', el.schema.name)
-        xmlEl.set('schemaFile', el.schema.filename)
+        xmlEl.set('schemaName', el.schema.name or '')
+        xmlEl.set('schemaFile', el.schema.filename or '')
     else:
         if ids and isinstance(el.id, int):
             xmlEl.set('id', "0x%X" % el.id)
-- 
2.43.0


From 9588150b4746d9b34f92bf661cd37844343e59df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 14/57] fix: streams named by a Path or file descriptor could
 not be loaded or converted

Document() failed on e.g. tempfile.TemporaryFile(), whose name is an int;
documents loaded from a Path could not be written as XML.
---
 ebmlite/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 2080f5f..3b49b4b 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -49,6 +49,7 @@ from datetime import datetime
 import errno
 import importlib.resources as importlib_resources
 from io import BytesIO, StringIO, IOBase
+import os
 import os.path
 from pathlib import Path
 import re
@@ -874,8 +875,9 @@ class Document(MasterElement):
         self.offset = self.payloadOffset = self.stream.tell()
 
         try:
-            self.filename = stream.name
-        except AttributeError:
+            # Note: a stream's name may be a `Path`, or a file descriptor.
+            self.filename = os.fsdecode(stream.name)
+        except (AttributeError, TypeError):
             self.filename = ""
 
         if name is None:
@@ -889,7 +891,7 @@ class Document(MasterElement):
             if isinstance(stream, BytesIO):
                 self.size = len(stream.getvalue())
             elif self.filename and os.path.exists(self.filename):
-                self.size = os.path.getsize(self.stream.name)
+                self.size = os.path.getsize(self.filename)
 
         self.info = {}
 
@@ -1147,8 +1149,9 @@ class Schema(object):
 
         if isinstance(source, (str, Path)):
             self.filename = os.path.realpath(source)
-        elif hasattr(source, "name"):
-            self.filename = os.path.realpath(source.name)
+        elif isinstance(getattr(source, "name", None), (str, bytes, Path)):
+            # Note: a stream's name may also be e.g. a file descriptor.
+            self.filename = os.path.realpath(os.fsdecode(source.name))
 
         self.elements = {}    # Element types, keyed by ID
         self.elementsByName = {}  # Element types, keyed by element name
-- 
2.43.0


From 8cdbb9412dc92e62450b4bc13fff0dedbc68bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 15/57] fix: non-ASCII text was corrupted by toXml()
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Character references were written into the attribute and then escaped
again on serialisation, so 'Midé' came back as 'Mid&#233;'.
---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 0c4fda9..9d6bbf9 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -201,7 +201,7 @@ def toXml(el: core.Element,
         xmlEl.set('encoding', binary_codec.NAME)
         xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
     elif not isinstance(el, core.VoidElement):
-        xmlEl.set('value', str(el.value).encode('ascii', 'xmlcharrefreplace').decode())
+        xmlEl.set('value', str(el.value))
 
     return xmlEl
 
-- 
2.43.0


From 21c3090e7c2f18ccdeec0a966cdd859eaf087b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 16/57] fix: dates could not be converted from XML

DateElement is an IntegerElement, so its value was parsed as a number.
---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 9d6bbf9..e9ba0b9 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -18,6 +18,7 @@ __all__ = ['createID', 'validateID', 'toXml', 'xml2ebml', 'loadXml', 'pprint',
            'printSchemata', 'flatiter']
 
 import ast
+from datetime import datetime
 from io import BytesIO
 import pathlib
 import struct
@@ -283,6 +284,8 @@ def xmlElement2ebml(xmlEl,
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
+    elif issubclass(cls, core.DateElement):
+        val = datetime.fromisoformat(xmlEl.get('value'))
     elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
-- 
2.43.0


From 43a2450f4f0cf41975aef93109124e7acac0ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 17/57] fix: infinite and NaN floats could not be converted
 from XML

---
 ebmlite/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index e9ba0b9..bf13d14 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -287,7 +287,12 @@ def xmlElement2ebml(xmlEl,
     elif issubclass(cls, core.DateElement):
         val = datetime.fromisoformat(xmlEl.get('value'))
     elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
-        val = ast.literal_eval(xmlEl.get('value'))
+        val = xmlEl.get('value')
+        try:
+            val = ast.literal_eval(val)
+        except ValueError:
+            # Not a Python literal: 'inf', '-inf', or 'nan'
+            val = cls.dtype(val)
     else:
         val = cls.dtype(xmlEl.get('value'))
 
-- 
2.43.0


From af4b4a809f254afbfbb8d31c3f1750df002708d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 18/57] fix: empty integer elements could not be converted back
 from XML

---
 ebmlite/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index bf13d14..4d7f937 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -303,7 +303,11 @@ def xmlElement2ebml(xmlEl,
     if sl is not None:
         sl = int(sl)
 
-    encoded = cls.encode(val, size, lengthSize=sl)
+    if size == 0 and val == 0:
+        # Empty integer elements are valid, and read as 0.
+        encoded = encId + encoding.encodeSize(0, sl)
+    else:
+        encoded = cls.encode(val, size, lengthSize=sl)
     ebmlFile.write(encoded)
     return len(encoded)
 
-- 
2.43.0


From 75a2f76f7ab43274d2cd850e25af1353c8fab385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 19/57] fix: converting unknown elements from XML changed
 UnknownElement's ID globally

---
 ebmlite/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 4d7f937..10a1110 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -250,9 +250,10 @@ def xmlElement2ebml(xmlEl,
         if eid is None:
             raise NameError("Unrecognized EBML element name with no 'id' "
                             "attribute in XML: %s" % xmlEl.tag)
-        cls = core.UnknownElement
         encId = encoding.encodeId(int(eid, 16))
-        cls.id = int(eid, 16)
+        # Don't change `UnknownElement` itself; it is used by all schemata.
+        cls = type('UnknownElement', (core.UnknownElement,),
+                   {'id': int(eid, 16)})
 
     codec = xmlEl.get('encoding', 'base64')
 
-- 
2.43.0


From 77e5815ff2a6861abde929bde899513cd1431ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 20/57] fix: xml2ebml(unknown=False) only checked root elements

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 10a1110..20c12a8 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -276,7 +276,7 @@ def xmlElement2ebml(xmlEl,
         ebmlFile.write(encoding.encodeSize(None, sl))
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl)
+            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown)
         endPos = ebmlFile.tell()
         ebmlFile.seek(sizePos)
         ebmlFile.write(encoding.encodeSize(size, sl))
-- 
2.43.0


From 4fc9b779d71cd0b00f3c2086b22baaa808e589ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 21/57] fix: 'sizeLength' attributes of nested master elements
 were not converted to int

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 20c12a8..c61bb29 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -268,7 +268,7 @@ def xmlElement2ebml(xmlEl,
         else:
             sl = int(sl)
     else:
-        sl = xmlEl.get('sizeLength', sizeLength)
+        sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
         ebmlFile.write(encId)
-- 
2.43.0


From 225b21e5ab5bc83fcf0665eb56a86c396bc6ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 22/57] fix: master elements too big for their size descriptor
 could not be converted from XML

The size descriptors of nested master elements are as wide as their
parent's, so documents can grow when converted back and overflow it.
Children are now encoded first, and a wider descriptor used if needed.
---
 ebmlite/util.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index c61bb29..f91eac1 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -271,17 +271,16 @@ def xmlElement2ebml(xmlEl,
         sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
-        ebmlFile.write(encId)
-        sizePos = ebmlFile.tell()
-        ebmlFile.write(encoding.encodeSize(None, sl))
-        size = 0
+        # The size is only known once the children (which may use larger size
+        # descriptors than originally) are encoded, and it may not fit `sl`.
+        children = BytesIO()
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown)
-        endPos = ebmlFile.tell()
-        ebmlFile.seek(sizePos)
-        ebmlFile.write(encoding.encodeSize(size, sl))
-        ebmlFile.seek(endPos)
-        return len(encId) + (endPos - sizePos)
+            xmlElement2ebml(chEl, children, schema, sl, unknown)
+        payload = children.getvalue()
+        encSize = encoding.encodeSize(len(payload), max(sl, encoding.getLength(len(payload))))
+        encoded = encId + encSize + payload
+        ebmlFile.write(encoded)
+        return len(encoded)
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
-- 
2.43.0


From 431da7ac2ecc1e2baac243be235d5e26bcd2685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 23/57] fix: Base64Codec(cols=0) failed instead of writing one
 continuous block

---
 ebmlite/xml_codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/xml_codecs.py b/ebmlite/xml_codecs.py
index 62407ca..95712f6 100644
--- a/ebmlite/xml_codecs.py
+++ b/ebmlite/xml_codecs.py
@@ -130,7 +130,7 @@ class Base64Codec(BinaryCodec):
 
         result = result.replace('\n', '')
 
-        if self.cols is None:
+        if not self.cols:
             if stream is not None:
                 return out.write(result)
             return result
-- 
2.43.0


From c2fc2ea89e74be72e49b71dbae28ea17ad1471cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 24/57] fix: xml2ebml and 'ebml2xml --single' failed without an
 output file

Both write binary data, which the text stream sys.stdout does not accept.
---
 ebmlite/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 7169429..aeb3210 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -27,7 +27,7 @@ def load_files(args, binary_output=False):
         errPrint("Error loading schema: %s\n" % err)
 
     if not args.output:
-        yield schema, sys.stdout
+        yield schema, sys.stdout.buffer if binary_output else sys.stdout
         return
 
     output = os.path.realpath(os.path.expanduser(args.output))
-- 
2.43.0


From 8acf1cc8fc6e0dd606f4fcac4e922ef314256c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 25/57] fix: ebml2xml lost line breaks in text

minidom writes line breaks in attributes as they are, and they are read
back as spaces. Also, the output was said to be UTF-8 whatever the
platform's default encoding was.
---
 ebmlite/tools/ebml2xml.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 5e3ca50..72a00b5 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -1,5 +1,4 @@
 import argparse
-from xml.dom.minidom import parseString
 from xml.etree import ElementTree as ET
 
 from ebmlite.tools import utils
@@ -59,17 +58,19 @@ def main():
     codecargs = {'cols': None} if args.single else {}
     codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding.strip().lower()](**codecargs)
 
-    with utils.load_files(args, binary_output=args.single) as (schema, out):
+    with utils.load_files(args, binary_output=True) as (schema, out):
         doc = schema.load(args.input, headers=True)
         if args.max:
             root = ebmlite.util.toXml(doc, offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)
         else:
             root = ebmlite.util.toXml(doc, offsets=False, sizes=False, types=False, ids=False, binary_codec=codec)
-        s = ET.tostring(root, encoding="utf-8")
         if args.single:
-            out.write(s)
+            s = ET.tostring(root, encoding="utf-8")
         else:
-            parseString(s).writexml(out, addindent='\t', newl='\n', encoding='utf-8')
+            # Note: `xml.dom.minidom` doesn't escape line breaks in attributes.
+            ET.indent(root, space='\t')
+            s = ET.tostring(root, encoding="utf-8", xml_declaration=True) + b'\n'
+        out.write(s)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5c56fcdcb2df179f626a8261a11c2aadbfd45594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 26/57] fix: printSchemata() added SCHEMA_PATH to the caller's
 list of paths

---
 ebmlite/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index f91eac1..594e1cd 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -505,10 +505,7 @@ def printSchemata(paths: Optional[List[Union[str, Path]]] = None,
         out = open(out, 'w')
 
     try:
-        if paths:
-            paths.extend(core.SCHEMA_PATH)
-        else:
-            paths = core.SCHEMA_PATH
+        paths = [*(paths or ()), *core.SCHEMA_PATH]
         schemata = core.listSchemata(*paths, absolute=absolute)
         for k, v in schemata.items():
             out.write("{}\n".format(k))
-- 
2.43.0


From ee2d0381803a98c38b3a03f0453b9d79decf6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 27/57] fix: schemata that don't define a DocType default could
 not be loaded

The name is documented to fall back on the base file name; schemata without
either now simply have no name.
---
 ebmlite/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 3b49b4b..fe76ece 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1183,11 +1183,14 @@ class Schema(object):
             self.elements[el.id] = void
             self.elementsByName['Void'] = void
 
-        # Schema name. Defaults to the schema's default EBML 'DocType'
+        # Schema name. Defaults to the schema's default EBML 'DocType' (if any)
+        # or the base file name.
         self.name = name or self.type
+        if not self.name and self.filename:
+            self.name = os.path.splitext(os.path.basename(self.filename))[0]
 
         # Create the schema's Document subclass.
-        self.document = type('%sDocument' % self.name.title(), (Document,),
+        self.document = type('%sDocument' % (self.name or '').title(), (Document,),
                              {'schema': self, 'children': self.children})
 
     def _parseLegacySchema(self, schema):
-- 
2.43.0


From ec53ed0495824975003008db7ba10bc836486d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 28/57] fix: loadSchema() could return a schema from another
 file than requested

Schemata were cached by the name used, so the same name with other 'paths',
or in another current directory, got the one loaded first; other spellings
of a path (symbolic links, '..') got different instances, which reloading
did not update. Schemata without a name are no longer cached as 'None'.
---
 ebmlite/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index fe76ece..b822fff 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1632,8 +1632,11 @@ def loadSchema(filename: Union[str, Path],
     origName = str(filename)
     filename = Path(filename)
 
-    if origName in SCHEMATA and not reload:
-        return SCHEMATA[origName]
+    cached = SCHEMATA.get(origName) if not reload else None
+    if cached is not None and not cached.filename:
+        # Created by `parseSchema()`. Schemata from files are keyed by their
+        # full path; the name can refer to another file (see `paths`).
+        return cached
 
     filename = _expandSchemaPath(filename)  # raises ModuleNotFoundError
 
@@ -1650,12 +1653,14 @@ def loadSchema(filename: Union[str, Path],
                     continue
 
     if hasattr(filename, 'expanduser'):
-        filename = filename.expanduser().absolute()
+        filename = filename.expanduser().resolve()
 
     if str(filename) in SCHEMATA and not reload:
         return SCHEMATA[str(filename)]
 
     if not filename.is_file():
+        if cached is not None:
+            return cached
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
 
     with filename.open() as fs:
@@ -1696,5 +1701,6 @@ def parseSchema(src: str,
 
     schema = Schema(stream, name=name, **kwargs)
     name = name or schema.name
-    SCHEMATA[name] = schema
+    if name:
+        SCHEMATA[name] = schema
     return schema
-- 
2.43.0


From 7a4f2f8150ba478bc40e6408e3490099dc271e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 29/57] fix: global="true" in schemata was ignored

'global' is documented as Boolean but only numbers were understood.
---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index b822fff..f9764f6 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1340,7 +1340,7 @@ class Schema(object):
             multiple = _getBool(attribs, 'multiple', False)
             precache = _getBool(attribs, 'precache', baseClass.precache)
             length = _getInt(attribs, 'length', None)
-            isGlobal = _getInt(attribs, 'global', None)
+            isGlobal = _getBool(attribs, 'global', None)
 
             if isGlobal is None:
                 # Element 'level'. The old schema format used level to define
-- 
2.43.0


From b9e4c7dcf64974d0b1f692bcf524f584f33eae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 30/57] fix: schema elements could be redefined with a more
 general type

E.g. a UIntegerElement redefined as IntegerElement (its base class) was
accepted, and the contradiction ignored.
---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index f9764f6..e1075e5 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1306,7 +1306,8 @@ class Schema(object):
             ename = oldEl.name
             eid = oldEl.id
 
-            if not issubclass(self.elements[eid], baseClass):
+            oldBase = BinaryElement if issubclass(oldEl, VoidElement) else oldEl.__base__
+            if baseClass is not oldBase:
                 raise TypeError('%s %r (ID 0x%02X) redefined as %s' %
                                 (oldEl.__name__, ename, eid, baseClass.__name__))
 
-- 
2.43.0


From b3db10204407700897a85218e9e7edd8a0449a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 31/57] fix: ThreadAwareFile(name, mode='w') truncated the file

Only a positional mode was checked, and 'x' was not rejected at all.
---
 ebmlite/threaded_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 20609b0..a09b464 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -45,9 +45,9 @@ class ThreadAwareFile(io.FileIO):
             one of the "read" modes (``r``, ``rb``, ``rU``, etc.).
         """
         # Ensure the file mode, if specified, is "read."
-        mode = args[1] if len(args) > 1 else 'r'
+        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
         if isinstance(mode, str):
-            if 'a' in mode or 'w' in mode or '+' in mode:
+            if any(c in mode for c in 'awx+'):
                 raise IOError("%s is read-only" % self.__class__.__name__)
 
         # Undocumented keyword argument `_new` is used by `makeThreadAware()`
-- 
2.43.0


From d30a42f3a5f2b8bdac6ae128192a5bcbc17857cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 32/57] fix: closing a ThreadAwareFile raised RuntimeError

cleanup() changed the dictionary it was iterating. The stream of one
thread could also be removed by other threads between being found and
being used, and close() opened the file if it wasn't open.
---
 ebmlite/threaded_file.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index a09b464..d215ab3 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -15,7 +15,7 @@ __all__ = ['ThreadAwareFile']
 
 import io
 import platform
-from threading import currentThread, Event
+from threading import currentThread, Event, RLock
 from typing import BinaryIO, TextIO, Union
 
 
@@ -64,6 +64,7 @@ class ThreadAwareFile(io.FileIO):
         self._ready.set()
 
         self.threads = {}
+        self._lock = RLock()  # Held only when changing `threads`
         
         if newFile is True:
             # Getting the stream for the thread will open the file.
@@ -108,12 +109,13 @@ class ThreadAwareFile(io.FileIO):
         self._ready.wait(self.timeout)
 
         ident = currentThread().ident
-        if ident not in self.threads:
+        fp = self.threads.get(ident)
+        if fp is None:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
-            self.threads[ident] = fp
-            return fp
-        return self.threads[ident]
+            with self._lock:
+                self.threads[ident] = fp
+        return fp
 
 
     def closeAll(self):
@@ -137,9 +139,10 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            for i in self.threads.keys():
-                if self.threads[i].closed:
-                    del self.threads[i]
+            with self._lock:
+                for i, fp in list(self.threads.items()):
+                    if fp.closed:
+                        del self.threads[i]
         finally:
             self._ready.set()
 
@@ -149,19 +152,18 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread().ident
-        if ident in self.threads:
-            return self.threads[ident].closed
-        return True
+        fp = self.threads.get(currentThread().ident)
+        return True if fp is None else fp.closed
 
 
     def close(self):
         """ Close the file for the current thread. The file will remain
             open for other threads.
         """
-        result = self.getThreadStream().close()
+        fp = self.threads.get(currentThread().ident)
+        if fp is not None:
+            fp.close()
         self.cleanup()
-        return result
 
 
     # Standard file methods, overridden
-- 
2.43.0


From c7e4b6837a06c258cfb44ab5dc96ada476174a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 33/57] fix: some standard methods of ThreadAwareFile always
 failed

readable(), readall(), readinto() and seekable() were not redirected to the
thread's own stream, so e.g. io.BufferedReader() could not use the file.
---
 ebmlite/threaded_file.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index d215ab3..9ef7686 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -201,6 +201,15 @@ class ThreadAwareFile(io.FileIO):
     def read(self, *args, **kwargs):
         return self.getThreadStream().read(*args, **kwargs)
 
+    def readable(self):
+        return self.getThreadStream().readable()
+
+    def readall(self):
+        return self.getThreadStream().read()
+
+    def readinto(self, *args, **kwargs):
+        return self.getThreadStream().readinto(*args, **kwargs)
+
     def readline(self, *args, **kwargs):
         return self.getThreadStream().readline(*args, **kwargs)
 
@@ -210,9 +219,15 @@ class ThreadAwareFile(io.FileIO):
     def seek(self, *args, **kwargs):
         return self.getThreadStream().seek(*args, **kwargs)
 
+    def seekable(self):
+        return self.getThreadStream().seekable()
+
     def tell(self):
         return self.getThreadStream().tell()
 
+    def writable(self):
+        return False
+
     def truncate(self, *args, **kwargs):
         raise IOError("Can't truncate(); %s is read-only" %
                       self.__class__.__name__)
-- 
2.43.0


From 5cb0d4d5a43c26e52668d86259eed1b9cc37b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 34/57] fix: ThreadAwareFile used as context manager was not
 thread-aware

__enter__() returned the current thread's stream, so other threads using
the target of the 'with' statement shared its position.
---
 ebmlite/threaded_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 9ef7686..77cc688 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -241,7 +241,8 @@ class ThreadAwareFile(io.FileIO):
                       self.__class__.__name__)
 
     def __enter__(self, *args, **kwargs):
-        return self.getThreadStream().__enter__()
+        self.getThreadStream().__enter__()
+        return self
 
     def __exit__(self, *args, **kwargs):
         return self.getThreadStream().__exit__(*args, **kwargs)
-- 
2.43.0


From 732e428a11c2da1e8f6f1f699d95a8055c74d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 35/57] fix: new threads could inherit the ThreadAwareFile
 stream of finished ones

Streams were keyed by thread identifier only, and these are reused: a new
thread could start in the middle of the file, or with a closed stream.
---
 ebmlite/threaded_file.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 77cc688..43ddbcc 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -17,6 +17,7 @@ import io
 import platform
 from threading import currentThread, Event, RLock
 from typing import BinaryIO, TextIO, Union
+from weakref import ref
 
 
 class ThreadAwareFile(io.FileIO):
@@ -64,6 +65,7 @@ class ThreadAwareFile(io.FileIO):
         self._ready.set()
 
         self.threads = {}
+        self._owners = {}  # References to the threads; idents get reused
         self._lock = RLock()  # Held only when changing `threads`
         
         if newFile is True:
@@ -99,22 +101,39 @@ class ThreadAwareFile(io.FileIO):
             raise TypeError("Not a file: %r" % fileStream)
 
         f = cls(fileStream.name, fileStream.mode, _new=False)
-        f.threads[currentThread().ident] = fileStream
+        f._setThreadStream(fileStream)
         return f
 
 
+    def _getThreadStream(self) -> Union[TextIO, BinaryIO, None]:
+        """ Get the file stream of the current thread, if any. The identifiers
+            of finished threads get reused; ignore what those left behind.
+        """
+        thread = currentThread()
+        owner = self._owners.get(thread.ident)
+        if owner is not None and owner() is thread:
+            return self.threads.get(thread.ident)
+        return None
+
+
+    def _setThreadStream(self, fp: Union[TextIO, BinaryIO]):
+        """ Set the file stream of the current thread. """
+        thread = currentThread()
+        with self._lock:
+            self.threads[thread.ident] = fp
+            self._owners[thread.ident] = ref(thread)
+
+
     def getThreadStream(self) -> Union[TextIO, BinaryIO]:
         """ Get (or create) the file stream for the current thread.
         """
         self._ready.wait(self.timeout)
 
-        ident = currentThread().ident
-        fp = self.threads.get(ident)
+        fp = self._getThreadStream()
         if fp is None:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
-            with self._lock:
-                self.threads[ident] = fp
+            self._setThreadStream(fp)
         return fp
 
 
@@ -152,7 +171,7 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        fp = self.threads.get(currentThread().ident)
+        fp = self._getThreadStream()
         return True if fp is None else fp.closed
 
 
@@ -160,7 +179,7 @@ class ThreadAwareFile(io.FileIO):
         """ Close the file for the current thread. The file will remain
             open for other threads.
         """
-        fp = self.threads.get(currentThread().ident)
+        fp = self._getThreadStream()
         if fp is not None:
             fp.close()
         self.cleanup()
-- 
2.43.0


From 906a61e70d3e216c10a275c297e5822525bb3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 36/57] fix: reading an 'infinite' element parsed the element
 following it

Its size was computed too, and so on, so files with many successive
'infinite' elements (e.g. live streams' clusters) failed with a
RecursionError, and damage to later elements kept earlier ones from being
read.
---
 ebmlite/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index e1075e5..456a34e 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -645,12 +645,15 @@ class MasterElement(Element):
                 self.stream.seek(pos)
                 end = pos
                 try:
-                    # TODO: Cache parsed elements?
-                    el, pos = self.parseElement(self.stream, nocache=True)
-                    if self._isValidChild(el.id):
-                        numChildren += 1
-                    else:
+                    # Check the ID first: anything else about an element that
+                    # isn't a child (e.g. its size) is of no concern.
+                    eid, _idlen = readElementID(self.stream)
+                    if not self._isValidChild(eid):
                         break
+                    self.stream.seek(pos)
+                    # TODO: Cache parsed elements?
+                    _el, pos = self.parseElement(self.stream, nocache=True)
+                    numChildren += 1
                 except TypeError as err:
                     # Will occur at end of file; message will contain "ord()".
                     if "ord()" in str(err):
-- 
2.43.0


From 00ef299dd65cb00bc5a93f74a6fcdfedebde3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 37/57] fix: size of documents without a known size ended at
 any unexpected element

---
 ebmlite/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 456a34e..60307aa 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -911,6 +911,13 @@ class Document(MasterElement):
             # the Document is actually used.
             pass
 
+    @classmethod
+    def _isValidChild(cls, elId: int) -> bool:
+        """ Is the given element ID part of the document? Always true; unlike
+            an 'infinite' element, a `Document` only ends with its stream.
+        """
+        return True
+
     def __repr__(self) -> str:
         """ "x.__repr__() <==> repr(x) """
         if self.name == self.__class__.__name__:
-- 
2.43.0


From ca54de14b607ba5888ad6c7c331ed614eb746de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 38/57] fix: converting an EBML header from XML wrote a second
 header

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 594e1cd..8609ad2 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -364,7 +364,7 @@ def xml2ebml(xmlFile,
         raise NameError("XML element %s not an element or document in "
                         "schema %s (wrong schema)" % (xmlRoot.tag, schema.name))
 
-    headers = headers and 'EBML' in schema
+    headers = headers and 'EBML' in schema and xmlRoot.tag != 'EBML'
     if headers and 'EBML' not in (el.tag for el in xmlRoot):
         pos = ebmlFile.tell()
         cls = schema.document
-- 
2.43.0


From 3e586f7f420dca9cc4578825cfb5e188c41fdbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 39/57] fix: text elements without a value were converted from
 XML as 'None'

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8609ad2..1f87715 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -294,7 +294,7 @@ def xmlElement2ebml(xmlEl,
             # Not a Python literal: 'inf', '-inf', or 'nan'
             val = cls.dtype(val)
     else:
-        val = cls.dtype(xmlEl.get('value'))
+        val = cls.dtype(xmlEl.get('value', ''))
 
     size = xmlEl.get('size', None)
     if size is not None:
-- 
2.43.0


From b93b0cabf1bb81e06ee0f1a8e307f73b83f55927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 40/57] fix: schema files not in the locale's encoding could
 not be loaded

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 60307aa..462e27c 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1674,7 +1674,8 @@ def loadSchema(filename: Union[str, Path],
             return cached
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
 
-    with filename.open() as fs:
+    # Note: binary, so the XML's own declaration determines its encoding.
+    with filename.open('rb') as fs:
         schema = Schema(fs, **kwargs)
 
     SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
-- 
2.43.0


From 03c2b9495e321f03941d0a3e759c372ad2ec82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 41/57] fix: loadSchema() returned a schema found earlier for a
 name found nowhere

---
 ebmlite/core.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 462e27c..81170cf 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1670,8 +1670,6 @@ def loadSchema(filename: Union[str, Path],
         return SCHEMATA[str(filename)]
 
     if not filename.is_file():
-        if cached is not None:
-            return cached
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
 
     # Note: binary, so the XML's own declaration determines its encoding.
-- 
2.43.0


From 049dc6201f2d1d3dbab91f0baf511c16ae2f4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 42/57] fix: packages without an __init__ module could not be
 used as schema paths

---
 ebmlite/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 81170cf..07dda54 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1571,11 +1571,17 @@ def _expandSchemaPath(path: Union[str, Path, types.ModuleType],
             strpath = path
 
     if isinstance(path, types.ModuleType):
-        return importlib_resources.files(path) / subdir / name
+        path = importlib_resources.files(path)
     elif '{' in strpath:
-        return importlib_resources.files(strpath.strip('{} ')) / subdir / name
+        path = importlib_resources.files(strpath.strip('{} '))
+    else:
+        path = Path(path)
 
-    return Path(path) / subdir / name
+    # Note: not all `Traversable` objects accept an empty string.
+    for part in (subdir, str(name)):
+        if part:
+            path = path / part
+    return path
 
 
 def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
-- 
2.43.0


From d2493f116c67d8a99c68fc0f11d1650083bc0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 43/57] fix: schemata in zipped packages were not listed, and
 got a wrong filename

---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 07dda54..84ab46c 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1610,8 +1610,8 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
             key = p.name
             if key.lower().endswith('.xml'):
                 try:
-                    # Casting to string is py35 fix. Remove in future.
-                    xml = ET.parse(str(p))
+                    with p.open('rb') as fs:
+                        xml = ET.parse(fs)
                     if xml.getroot().tag == 'Schema':
                         value = p if absolute else Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
@@ -1682,6 +1682,8 @@ def loadSchema(filename: Union[str, Path],
     with filename.open('rb') as fs:
         schema = Schema(fs, **kwargs)
 
+    # Note: a stream from a (e.g., zipped) package doesn't know its full path.
+    schema.filename = str(filename)
     SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
     return schema
 
-- 
2.43.0


From 45964b8e218a1b1094e3be82435623024c84da0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 44/57] fix: listSchemata() failed if a file declared an
 unknown encoding

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 84ab46c..16d1ac2 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1615,7 +1615,8 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                     if xml.getroot().tag == 'Schema':
                         value = p if absolute else Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
-                except (ET.ParseError, IOError, TypeError):
+                except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
+                    # Note: an unusable XML encoding is a Lookup or ValueError
                     continue
 
     return schemata
-- 
2.43.0


From 72996718eca620f90c36097d10865a93c0d8a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 45/57] fix: listSchemata(absolute=False) left out the schemata
 of modules

---
 ebmlite/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 16d1ac2..7bb5afc 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1606,6 +1606,8 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
         if not fullpath.is_dir():
             continue
 
+        relpath = Path('{%s}' % path.__name__ if isinstance(path, types.ModuleType) else path)
+
         for p in fullpath.iterdir():
             key = p.name
             if key.lower().endswith('.xml'):
@@ -1613,7 +1615,7 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                     with p.open('rb') as fs:
                         xml = ET.parse(fs)
                     if xml.getroot().tag == 'Schema':
-                        value = p if absolute else Path(path) / p.name
+                        value = p if absolute else relpath / p.name
                         schemata.setdefault(key, []).append(value)
                 except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
                     # Note: an unusable XML encoding is a Lookup or ValueError
-- 
2.43.0


From cd8d190cd22f54c920510e13905329edd1ce2f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 46/57] fix: loading a schema missing from a zipped package
 raised AttributeError

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 7bb5afc..9d344bd 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1661,7 +1661,7 @@ def loadSchema(filename: Union[str, Path],
     filename = _expandSchemaPath(filename)  # raises ModuleNotFoundError
 
     if not filename.is_file():
-        if len(filename.parts) == 1:
+        if isinstance(filename, Path) and len(filename.parts) == 1:
             # Not a specific path and file not found: search paths in SCHEMA_PATH
             for p in paths:
                 try:
-- 
2.43.0


From e062f1dfafce6367162a210caa65fdb454730cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 47/57] fix: XML without a header could not be converted to a
 stream that cannot seek

---
 ebmlite/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 1f87715..cd572b7 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -366,10 +366,10 @@ def xml2ebml(xmlFile,
 
     headers = headers and 'EBML' in schema and xmlRoot.tag != 'EBML'
     if headers and 'EBML' not in (el.tag for el in xmlRoot):
-        pos = ebmlFile.tell()
         cls = schema.document
-        ebmlFile.write(cls.encodePayload(cls._createHeaders()))
-        numBytes = ebmlFile.tell() - pos
+        header = cls.encodePayload(cls._createHeaders())
+        ebmlFile.write(header)
+        numBytes = len(header)
     else:
         numBytes = 0
 
-- 
2.43.0


From efb1c74669aac9723d4397075cf05687252d5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 48/57] fix: float elements holding NaN were not equal to
 themselves

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 9d344bd..188ed2e 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -364,7 +364,8 @@ class FloatElement(Element):
     def __eq__(self, other):
         if not super(FloatElement, self).__eq__(other):
             return False
-        return self.value == other.value
+        # Note: NaN is not equal to itself, but the element is.
+        return other is self or self.value == other.value
 
     def parse(self, stream: BinaryIO, size: int) -> float:
         """ Type-specific helper function for parsing the element's payload.
-- 
2.43.0


From 168ad910bfebb769ea3bafca8d0941bcd918b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 49/57] fix: listSchemata() lists schemata in the legacy format

loadSchema() loads them, so the listing did not tell which file a name loads.
---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 188ed2e..c2dc96a 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1615,7 +1615,7 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                 try:
                     with p.open('rb') as fs:
                         xml = ET.parse(fs)
-                    if xml.getroot().tag == 'Schema':
+                    if xml.getroot().tag in ('Schema', 'table'):
                         value = p if absolute else relpath / p.name
                         schemata.setdefault(key, []).append(value)
                 except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
-- 
2.43.0


From 86f64727ab9788879cef36b46ffb7440f603cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 50/57] fix: raw data of an infinite element whose size was not
 asked for yet

---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index c2dc96a..52142bb 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -197,14 +197,16 @@ class Element(object):
     def getRaw(self) -> bytes:
         """ Get the element's raw binary data, including EBML headers.
         """
+        size = self.size  # Note: finding an 'infinite' element's size seeks
         self.stream.seek(self.offset)
-        return self.stream.read(self.size + (self.payloadOffset - self.offset))
+        return self.stream.read(size + (self.payloadOffset - self.offset))
 
     def getRawValue(self) -> bytes:
         """ Get the raw binary of the element's value.
         """
+        size = self.size  # Note: finding an 'infinite' element's size seeks
         self.stream.seek(self.payloadOffset)
-        return self.stream.read(self.size)
+        return self.stream.read(size)
 
     # ==========================================================================
     # Caching (experimental)
-- 
2.43.0


From 9baed8860bab6a2def5b0b6e1bf3d49c2b386349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:07 +0000
Subject: [PATCH 51/57] fix: tools accept every codec they offer (names with
 capital letters raised KeyError)

---
 ebmlite/tools/ebml2xml.py  | 2 +-
 ebmlite/tools/view_ebml.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 72a00b5..f5825f9 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -56,7 +56,7 @@ def main():
     args = argparser.parse_args()
 
     codecargs = {'cols': None} if args.single else {}
-    codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding.strip().lower()](**codecargs)
+    codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding](**codecargs)
 
     with utils.load_files(args, binary_output=True) as (schema, out):
         doc = schema.load(args.input, headers=True)
diff --git a/ebmlite/tools/view_ebml.py b/ebmlite/tools/view_ebml.py
index 4123201..4fccf86 100644
--- a/ebmlite/tools/view_ebml.py
+++ b/ebmlite/tools/view_ebml.py
@@ -46,7 +46,7 @@ def main():
 
     args = argparser.parse_args()
 
-    codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding.strip().lower()]()
+    codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding]()
 
     with utils.load_files(args, binary_output=False) as (schema, out):
         doc = schema.load(args.input, headers=True)
-- 
2.43.0


From 07e77eb8cc9fe0d643e2e3b97009eeebb9c6aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 52/57] fix: loadXml() accepts the name of a schema, as
 documented

---
 ebmlite/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index cd572b7..91852e0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -392,7 +392,7 @@ def xml2ebml(xmlFile,
 
 
 def loadXml(xmlFile,
-            schema: core.Schema,
+            schema: Union[str, Path, core.Schema],
             ebmlFile: Union[BinaryIO, str, None] = None):
     """ Helpful utility to load an EBML document from an XML file.
 
@@ -405,6 +405,9 @@ def loadXml(xmlFile,
             automatically-generated temporary file.
         :return The root node of the specified EBML file.
     """
+    if not isinstance(schema, core.Schema):
+        schema = core.loadSchema(schema)
+
     if ebmlFile == ":memory:":
         ebmlFile = BytesIO()
         xml2ebml(xmlFile, ebmlFile, schema)
-- 
2.43.0


From cdc5875b0b8b6b8dea6b4a3202c2383d22616a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 53/57] fix: addElement() kept the caller's dictionary of
 attributes

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 52142bb..ce2ab40 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1375,7 +1375,8 @@ class Schema(object):
                            '__slots__': baseClass.__slots__})
 
             self.elements[eid] = eclass
-            self.elementInfo[eid] = attribs
+            # Note: a copy; the caller may use its dictionary again.
+            self.elementInfo[eid] = dict(attribs)
             self.elementsByName[ename] = eclass
 
             if isGlobal:
-- 
2.43.0


From d6874908e9a5bd57d8eafa065faaa29872b0425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 54/57] fix: the repr of a ThreadAwareFile given its file by
 keyword

---
 ebmlite/threaded_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 43ddbcc..e156e2f 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -85,7 +85,7 @@ class ThreadAwareFile(io.FileIO):
             
         return fmt % ("closed" if self.closed else "open",
                       self.__class__.__name__, 
-                      self.initArgs[0],
+                      self.initArgs[0] if self.initArgs else self.initKwargs.get('file'),
                       self._mode, 
                       id(self))
         
-- 
2.43.0


From d3599e89e9c3384d730e9d7533482717ea0cf1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 55/57] fix: the Matroska schema lacked the children of
 BlockGroup and ChapterDisplay

---
 ebmlite/schemata/matroska.xml | 47 +++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/ebmlite/schemata/matroska.xml b/ebmlite/schemata/matroska.xml
index a00281c..5794fff 100644
--- a/ebmlite/schemata/matroska.xml
+++ b/ebmlite/schemata/matroska.xml
@@ -15,10 +15,10 @@
         <UIntegerElement name="SignatureHash" id="0x7E9A" webm="0">Hash algorithm used (1=SHA1-160, 2=MD5).</UIntegerElement>
         <BinaryElement name="SignaturePublicKey" id="0x7EA5" webm="0">The public key to use with the algorithm (in the case of a PKI-based signature).</BinaryElement>
         <BinaryElement name="Signature" id="0x7EB5" webm="0">The signature of the data (until a new.</BinaryElement>
-    </MasterElement>
-    <MasterElement name="SignatureElements" id="0x7E5B" webm="0">Contains elements that will be used to compute the signature.
-        <MasterElement name="SignatureElementList" id="0x7E7B" multiple="1" webm="0">A list consists of a number of consecutive elements that represent one case where data is used in signature. Ex: <i>Cluster|Block|BlockAdditional</i> means that the BlockAdditional of all Blocks in all Clusters is used for encryption.
-            <BinaryElement name="SignedElement" id="0x6532" multiple="1" webm="0">An element ID whose data will be used to compute the signature.</BinaryElement>
+        <MasterElement name="SignatureElements" id="0x7E5B" webm="0">Contains elements that will be used to compute the signature.
+            <MasterElement name="SignatureElementList" id="0x7E7B" multiple="1" webm="0">A list consists of a number of consecutive elements that represent one case where data is used in signature. Ex: <i>Cluster|Block|BlockAdditional</i> means that the BlockAdditional of all Blocks in all Clusters is used for encryption.
+                <BinaryElement name="SignedElement" id="0x6532" multiple="1" webm="0">An element ID whose data will be used to compute the signature.</BinaryElement>
+            </MasterElement>
         </MasterElement>
     </MasterElement>
 </MasterElement>
@@ -59,6 +59,28 @@
         <UIntegerElement name="PrevSize" cppname="ClusterPrevSize" id="0xAB" minver="1">Size of the previous Cluster, in octets. Can be useful for backward playing.</UIntegerElement>
         <BinaryElement name="SimpleBlock" id="0xA3" multiple="1" minver="2" webm="1" divx="1">Similar to <a href="http://www.matroska.org/technical/specs/index.html#Block">Block</a> but without all the extra information, mostly used to reduced overhead when no extra feature is needed. (see <a href="http://www.matroska.org/technical/specs/index.html#simpleblock_structure">SimpleBlock Structure</a>)</BinaryElement>
         <MasterElement name="BlockGroup" id="0xA0" multiple="1" minver="1">Basic container of information containing a single Block or BlockVirtual, and information specific to that Block/VirtualBlock.
+            <BinaryElement name="Block" id="0xA1" mandatory="1" minver="1">Block containing the actual data to be rendered and a timecode relative to the Cluster Timecode.</BinaryElement>
+            <BinaryElement name="BlockVirtual" id="0xA2" minver="1" webm="0">A Block with no data. It must be stored in the stream at the place the real Block should be in display order.</BinaryElement>
+            <MasterElement name="BlockAdditions" id="0x75A1" minver="1" webm="0">Contain additional blocks to complete the main one.
+                <MasterElement name="BlockMore" id="0xA6" mandatory="1" multiple="1" minver="1" webm="0">Contain the BlockAdditional and some parameters.
+                    <UIntegerElement name="BlockAddID" id="0xEE" mandatory="1" minver="1" webm="0" default="1" range="not 0">An ID to identify the BlockAdditional level.</UIntegerElement>
+                    <BinaryElement name="BlockAdditional" id="0xA5" mandatory="1" minver="1" webm="0">Interpreted by the codec as it wishes (using the BlockAddID).</BinaryElement>
+                </MasterElement>
+            </MasterElement>
+            <UIntegerElement name="BlockDuration" id="0x9B" minver="1" default="DefaultDuration">The duration of the Block (based on TimecodeScale).</UIntegerElement>
+            <UIntegerElement name="ReferencePriority" cppname="FlagReferenced" id="0xFA" mandatory="1" minver="1" webm="0" default="0">This frame is referenced and has the specified cache priority. A value of 0 means the frame is not referenced.</UIntegerElement>
+            <IntegerElement name="ReferenceBlock" id="0xFB" multiple="1" minver="1">Timecode of another frame used as a reference (ie: B or P frame). The timecode is relative to the block it's attached to.</IntegerElement>
+            <IntegerElement name="ReferenceVirtual" id="0xFD" minver="1" webm="0">Relative position of the data that should be in position of the virtual block.</IntegerElement>
+            <BinaryElement name="CodecState" id="0xA4" minver="2" webm="0">The new codec state to use. Data interpretation is private to the codec.</BinaryElement>
+            <MasterElement name="Slices" id="0x8E" minver="1">Contains slices description.
+                <MasterElement name="TimeSlice" id="0xE8" multiple="1" minver="1">Contains extra time information about the data contained in the Block.
+                    <UIntegerElement name="LaceNumber" cppname="SliceLaceNumber" id="0xCC" minver="1" default="0">The reverse number of the frame in the lace (0 is the last frame, 1 is the next to last, etc).</UIntegerElement>
+                    <UIntegerElement name="FrameNumber" cppname="SliceFrameNumber" id="0xCD" minver="1" webm="0" default="0">The number of the frame to generate from this lace with this delay.</UIntegerElement>
+                    <UIntegerElement name="BlockAdditionID" cppname="SliceBlockAddID" id="0xCB" minver="1" webm="0" default="0">The ID of the BlockAdditional element (0 is the main Block).</UIntegerElement>
+                    <UIntegerElement name="Delay" cppname="SliceDelay" id="0xCE" minver="1" webm="0" default="0">The (scaled) delay to apply to the element.</UIntegerElement>
+                    <UIntegerElement name="SliceDuration" id="0xCF" minver="1" webm="0" default="0">The (scaled) duration to apply to the element.</UIntegerElement>
+                </MasterElement>
+            </MasterElement>
         </MasterElement>
         <BinaryElement name="EncryptedBlock" id="0xAF" multiple="1" webm="0">Similar to <a href="http://www.matroska.org/technical/specs/index.html#SimpleBlock">SimpleBlock</a> but the data inside the Block are Transformed (encrypt and/or signed). (see <a href="http://www.matroska.org/technical/specs/index.html#encryptedblock_structure">EncryptedBlock Structure</a>)</BinaryElement>
     </MasterElement>
@@ -204,13 +226,16 @@
                     <UIntegerElement name="ChapterTrackNumber" id="0x89" mandatory="1" multiple="1" minver="1" webm="0" range="not 0">UID of the Track to apply this chapter too. In the absense of a control track, choosing this chapter will select the listed Tracks and deselect unlisted tracks. Absense of this element indicates that the Chapter should be applied to any currently used Tracks.</UIntegerElement>
                 </MasterElement>
                 <MasterElement name="ChapterDisplay" id="0x80" multiple="1" minver="1" webm="0">Contains all possible strings to use for the chapter display.
-                    <MasterElement name="ChapProcess" cppname="ChapterProcess" id="0x6944" multiple="1" minver="1" webm="0">Contains all the commands associated to the Atom.
-                        <UIntegerElement name="ChapProcessCodecID" cppname="ChapterProcessCodecID" id="0x6955" mandatory="1" minver="1" webm="0" default="0">Contains the type of the codec used for the processing. A value of 0 means native Matroska processing (to be defined), a value of 1 means the <a href="http://www.matroska.org/technical/specs/chapters/index.html#dvd">DVD</a> command set is used. More codec IDs can be added later.</UIntegerElement>
-                        <BinaryElement name="ChapProcessPrivate" cppname="ChapterProcessPrivate" id="0x450D" minver="1" webm="0">Some optional data attached to the ChapProcessCodecID information. <a href="http://www.matroska.org/technical/specs/chapters/index.html#dvd">For ChapProcessCodecID = 1</a>, it is the "DVD level" equivalent.</BinaryElement>
-                        <MasterElement name="ChapProcessCommand" cppname="ChapterProcessCommand" id="0x6911" multiple="1" minver="1" webm="0">Contains all the commands associated to the Atom.
-                            <UIntegerElement name="ChapProcessTime" cppname="ChapterProcessTime" id="0x6922" mandatory="1" minver="1" webm="0">Defines when the process command should be handled (0: during the whole chapter, 1: before starting playback, 2: after playback of the chapter).</UIntegerElement>
-                            <BinaryElement name="ChapProcessData" cppname="ChapterProcessData" id="0x6933" mandatory="1" minver="1" webm="0">Contains the command information. The data should be interpreted depending on the ChapProcessCodecID value. <a href="http://www.matroska.org/technical/specs/chapters/index.html#dvd">For ChapProcessCodecID = 1</a>, the data correspond to the binary DVD cell pre/post commands.</BinaryElement>
-                        </MasterElement>
+                    <UnicodeElement name="ChapString" cppname="ChapterString" id="0x85" mandatory="1" minver="1" webm="0">Contains the string to use as the chapter atom.</UnicodeElement>
+                    <StringElement name="ChapLanguage" cppname="ChapterLanguage" id="0x437C" mandatory="1" multiple="1" minver="1" webm="0" default="eng">The languages corresponding to the string.</StringElement>
+                    <StringElement name="ChapCountry" cppname="ChapterCountry" id="0x437E" multiple="1" minver="1" webm="0">The countries corresponding to the string, same 2 octets as in Internet domains.</StringElement>
+                </MasterElement>
+                <MasterElement name="ChapProcess" cppname="ChapterProcess" id="0x6944" multiple="1" minver="1" webm="0">Contains all the commands associated to the Atom.
+                    <UIntegerElement name="ChapProcessCodecID" cppname="ChapterProcessCodecID" id="0x6955" mandatory="1" minver="1" webm="0" default="0">Contains the type of the codec used for the processing. A value of 0 means native Matroska processing (to be defined), a value of 1 means the <a href="http://www.matroska.org/technical/specs/chapters/index.html#dvd">DVD</a> command set is used. More codec IDs can be added later.</UIntegerElement>
+                    <BinaryElement name="ChapProcessPrivate" cppname="ChapterProcessPrivate" id="0x450D" minver="1" webm="0">Some optional data attached to the ChapProcessCodecID information. <a href="http://www.matroska.org/technical/specs/chapters/index.html#dvd">For ChapProcessCodecID = 1</a>, it is the "DVD level" equivalent.</BinaryElement>
+                    <MasterElement name="ChapProcessCommand" cppname="ChapterProcessCommand" id="0x6911" multiple="1" minver="1" webm="0">Contains all the commands associated to the Atom.
+                        <UIntegerElement name="ChapProcessTime" cppname="ChapterProcessTime" id="0x6922" mandatory="1" minver="1" webm="0">Defines when the process command should be handled (0: during the whole chapter, 1: before starting playback, 2: after playback of the chapter).</UIntegerElement>
+                        <BinaryElement name="ChapProcessData" cppname="ChapterProcessData" id="0x6933" mandatory="1" minver="1" webm="0">Contains the command information. The data should be interpreted depending on the ChapProcessCodecID value. <a href="http://www.matroska.org/technical/specs/chapters/index.html#dvd">For ChapProcessCodecID = 1</a>, the data correspond to the binary DVD cell pre/post commands.</BinaryElement>
                     </MasterElement>
                 </MasterElement>
             </MasterElement>
-- 
2.43.0


From f5e233e7a0c554b4889c8262eff334f65d2fd3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 56/57] fix: a field's ConfigID was missing from the recorder
 UI schema

---
 ebmlite/schemata/mide_config_ui.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/schemata/mide_config_ui.xml b/ebmlite/schemata/mide_config_ui.xml
index 9836e04..75ac7a8 100644
--- a/ebmlite/schemata/mide_config_ui.xml
+++ b/ebmlite/schemata/mide_config_ui.xml
@@ -55,7 +55,7 @@
             </MasterElement>
 
             <MasterElement name="UIntField" global="1" id="0x4001" multiple="1">
-                <IntegerField name="ConfigID" id="0x5001" multiple="0"></IntegerField>
+                <UIntegerElement name="ConfigID" id="0x5001" multiple="0"></UIntegerElement>
                 <UnicodeElement name="Label" id="0x5005" multiple="0"></UnicodeElement>
                 <UnicodeElement name="ToolTip" id="0x5015" multiple="0"></UnicodeElement>
                 <UnicodeElement name="Units" id="0x5025" multiple="0"></UnicodeElement>
-- 
2.43.0


From b6ce707b8d8cba80d6861a402abeb769488cd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:25 +0000
Subject: [PATCH 57/57] fix: the hash of a ThreadAwareFile changed, and taking
 it reopened the file

---
 ebmlite/threaded_file.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index e156e2f..4645365 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -187,11 +187,14 @@ class ThreadAwareFile(io.FileIO):
 
     # Standard file methods, overridden
 
+    # Note: none of these (unlike the others) may use the current thread's
+    # stream, as getting it (re)opens the file. Nor may an object's hash change.
+
     def __format__(self, *args):
-        return self.getThreadStream().__format__(*args)
+        return object.__format__(self, *args)
 
     def __hash__(self):
-        return self.getThreadStream().__hash__()
+        return object.__hash__(self)
 
     def __iter__(self):
         return self.getThreadStream().__iter__()
@@ -203,10 +206,10 @@ class ThreadAwareFile(io.FileIO):
         return self.getThreadStream().__reduce_ex__(*args)
 
     def __sizeof__(self):
-        return self.getThreadStream().__sizeof__()
+        return object.__sizeof__(self)
 
     def __str__(self):
-        return self.getThreadStream().__str__()
+        return self.__repr__()
 
     def fileno(self):
         return self.getThreadStream().fileno()
-- 
2.43.0

