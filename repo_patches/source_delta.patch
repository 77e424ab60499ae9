From 86b734a9df2dc0fe6823babf8decf88b91d11948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 01/48] fix: encodeSize() refuses an explicit length too short
 for the size

---
 ebmlite/encoding.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index f7b9e53..1be8508 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -87,9 +87,14 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
         length = 1 if (length is None or length == -1) else length
         return b'\xff' * length
 
-    length = getLength(val) if (length is None or length == -1) else length
+    explicit = not (length is None or length == -1)
+    length = length if explicit else getLength(val)
     try:
         prefix = LENGTH_PREFIXES[length]
+        if explicit and val >= prefix - 1:
+            # Too big: the value would run into the length marker bits, or be
+            # mistaken for an 'unknown' size.
+            raise ValueError
         return encodeUInt(val | prefix, length)
     except (IndexError, TypeError, ValueError):
         raise ValueError("Cannot encode element size %s" % length)
-- 
2.43.0


From 327a78184e1412d10fb3f92c8ff2ffc0bb8aa800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 02/48] fix: encode documents and master elements given as
 lists of name/value tuples

---
 ebmlite/core.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index aa9fea2..718ed0e 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -745,6 +745,9 @@ class MasterElement(Element):
         if isinstance(data, list) and len(data) > 0 and isinstance(data[0], list):
             # List of lists: special case for 'master' elements.
             # Encode as multiple 'master' elements.
+            if not cls.multiple:
+                raise ValueError("Multiple %s elements per parent not permitted"
+                                 % cls.name)
             result = bytearray()
             for v in data:
                 result.extend(cls.encode(v, length=length,
@@ -752,6 +755,13 @@ class MasterElement(Element):
                                          infinite=infinite))
             return result
 
+        if isinstance(data, (list, tuple)) and len(data) > 0 and isinstance(data[0], tuple):
+            # Name/value pairs: the contents of a single 'master' element.
+            payload = cls.encodePayload(data)
+            return (encoding.encodeId(cls.id)
+                    + encoding.encodeSize(None if infinite else len(payload), lengthSize)
+                    + payload)
+
         # TODO: Remove 'infinite' kwarg from `Element.encode()` and handle it
         # here, since it only applied to Master elements.
         return super(MasterElement, cls).encode(data, length=length,
@@ -1015,7 +1025,8 @@ class Document(MasterElement):
                 raise TypeError('Cannot encode multiple Documents')
             else:
                 for v in data:
-                    stream.write(cls.encodePayload(v))
+                    # Either a dictionary or a single name/value tuple
+                    stream.write(cls.encodePayload([v] if isinstance(v, tuple) else v))
         else:
             stream.write(cls.encodePayload(data))
 
-- 
2.43.0


From 3b78be1d57d7cf2a71bf1969484bc28a1ac16c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 03/48] fix: the encoded element size always matches the
 payload written

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 718ed0e..66b33c2 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -262,7 +262,7 @@ class Element(object):
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
         payload = cls.encodePayload(value, length=length)
-        length = None if infinite else (length or len(payload))
+        length = None if infinite else len(payload)
         encId = encoding.encodeId(cls.id)
         return encId + encoding.encodeSize(length, lengthSize) + payload
 
-- 
2.43.0


From db441ea8dda04aeea0f061f28919e2fdc89c203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 04/48] fix: ThreadAwareFile.cleanup() (and close()) modified
 its dictionary while iterating

---
 ebmlite/threaded_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 20609b0..92a0c75 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -137,9 +137,9 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            for i in self.threads.keys():
-                if self.threads[i].closed:
-                    del self.threads[i]
+            for i, fp in list(self.threads.items()):
+                if fp.closed:
+                    self.threads.pop(i, None)
         finally:
             self._ready.set()
 
-- 
2.43.0


From bae6a525fd6f387ba2535d30faca1307d4d13ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 05/48] fix: ThreadAwareFile is read-only however the mode is
 given

---
 ebmlite/threaded_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 92a0c75..42faef5 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -45,9 +45,9 @@ class ThreadAwareFile(io.FileIO):
             one of the "read" modes (``r``, ``rb``, ``rU``, etc.).
         """
         # Ensure the file mode, if specified, is "read."
-        mode = args[1] if len(args) > 1 else 'r'
+        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
         if isinstance(mode, str):
-            if 'a' in mode or 'w' in mode or '+' in mode:
+            if any(m in mode for m in 'awx+'):
                 raise IOError("%s is read-only" % self.__class__.__name__)
 
         # Undocumented keyword argument `_new` is used by `makeThreadAware()`
-- 
2.43.0


From e67dd72a8be457ba452be4084f1122b067f1e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 06/48] fix: a ThreadAwareFile in a with statement stays
 thread-aware

---
 ebmlite/threaded_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 42faef5..6c46e4f 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -224,7 +224,8 @@ class ThreadAwareFile(io.FileIO):
                       self.__class__.__name__)
 
     def __enter__(self, *args, **kwargs):
-        return self.getThreadStream().__enter__()
+        self.getThreadStream().__enter__()
+        return self
 
     def __exit__(self, *args, **kwargs):
         return self.getThreadStream().__exit__(*args, **kwargs)
-- 
2.43.0


From 36e37ec8707906268e7610ca14e682cd9bcafe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 07/48] fix: ThreadAwareFile implements the rest of the
 standard read-only file methods

---
 ebmlite/threaded_file.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 6c46e4f..d686e85 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -199,6 +199,15 @@ class ThreadAwareFile(io.FileIO):
     def read(self, *args, **kwargs):
         return self.getThreadStream().read(*args, **kwargs)
 
+    def readable(self):
+        return self.getThreadStream().readable()
+
+    def readall(self):
+        return self.getThreadStream().readall()
+
+    def readinto(self, *args, **kwargs):
+        return self.getThreadStream().readinto(*args, **kwargs)
+
     def readline(self, *args, **kwargs):
         return self.getThreadStream().readline(*args, **kwargs)
 
@@ -208,6 +217,9 @@ class ThreadAwareFile(io.FileIO):
     def seek(self, *args, **kwargs):
         return self.getThreadStream().seek(*args, **kwargs)
 
+    def seekable(self):
+        return self.getThreadStream().seekable()
+
     def tell(self):
         return self.getThreadStream().tell()
 
@@ -215,6 +227,9 @@ class ThreadAwareFile(io.FileIO):
         raise IOError("Can't truncate(); %s is read-only" %
                       self.__class__.__name__)
 
+    def writable(self):
+        return False
+
     def write(self, *args, **kwargs):
         raise IOError("Can't write(); %s is read-only" %
                       self.__class__.__name__)
-- 
2.43.0


From 0ab1e3d42a9030c2df625910e5d09c7723672c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 08/48] fix: a new thread does not inherit the ThreadAwareFile
 stream of a finished one

---
 ebmlite/threaded_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index d686e85..38a868f 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -98,7 +98,7 @@ class ThreadAwareFile(io.FileIO):
             raise TypeError("Not a file: %r" % fileStream)
 
         f = cls(fileStream.name, fileStream.mode, _new=False)
-        f.threads[currentThread().ident] = fileStream
+        f.threads[currentThread()] = fileStream
         return f
 
 
@@ -107,7 +107,8 @@ class ThreadAwareFile(io.FileIO):
         """
         self._ready.wait(self.timeout)
 
-        ident = currentThread().ident
+        # Keyed by the thread itself; its ident may get reused by a later thread.
+        ident = currentThread()
         if ident not in self.threads:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
@@ -149,7 +150,7 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread().ident
+        ident = currentThread()
         if ident in self.threads:
             return self.threads[ident].closed
         return True
-- 
2.43.0


From d0ed3c36a2b49660c217c44bf87e754acc55ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 09/48] fix: toXml() escaped non-ASCII text twice

---
 ebmlite/tools/utils.py | 3 ++-
 ebmlite/util.py        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 7169429..118cec4 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -33,5 +33,6 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
-    with open(output, ('wb' if binary_output else 'w')) as out:
+    with open(output, ('wb' if binary_output else 'w'),
+              encoding=(None if binary_output else 'utf-8')) as out:
         yield schema, out
diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8dd6b97..c42b5d4 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -201,7 +201,7 @@ def toXml(el: core.Element,
         xmlEl.set('encoding', binary_codec.NAME)
         xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
     elif not isinstance(el, core.VoidElement):
-        xmlEl.set('value', str(el.value).encode('ascii', 'xmlcharrefreplace').decode())
+        xmlEl.set('value', str(el.value))
 
     return xmlEl
 
-- 
2.43.0


From f7ff9d991c4d83d8b75c3ba70de65736ba3d2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 10/48] fix: xml2ebml() converts date elements

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index c42b5d4..ea589fb 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -18,6 +18,7 @@ __all__ = ['createID', 'validateID', 'toXml', 'xml2ebml', 'loadXml', 'pprint',
            'printSchemata', 'flatiter']
 
 import ast
+from datetime import datetime
 from io import BytesIO
 import pathlib
 import struct
@@ -283,6 +284,8 @@ def xmlElement2ebml(xmlEl,
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
+    elif issubclass(cls, core.DateElement):
+        val = datetime.fromisoformat(xmlEl.get('value'))
     elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
-- 
2.43.0


From 5c29ec4d27377f1aa1b1e94ca6bb218b325bb130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 11/48] fix: xml2ebml() converts infinite and NaN floats

---
 ebmlite/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index ea589fb..878f41c 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -286,7 +286,13 @@ def xmlElement2ebml(xmlEl,
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
     elif issubclass(cls, core.DateElement):
         val = datetime.fromisoformat(xmlEl.get('value'))
-    elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
+    elif issubclass(cls, core.FloatElement):
+        val = xmlEl.get('value')
+        try:
+            val = float(val)  # including infinity and NaN
+        except ValueError:
+            val = ast.literal_eval(val)
+    elif issubclass(cls, core.IntegerElement):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
         val = cls.dtype(xmlEl.get('value'))
-- 
2.43.0


From 84023f06bb7971c8b2ec633c0fbc934c593b1b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 12/48] fix: xml2ebml() converts integer elements of length 0

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 878f41c..4149248 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -300,6 +300,9 @@ def xmlElement2ebml(xmlEl,
     size = xmlEl.get('size', None)
     if size is not None:
         size = int(size)
+        if size == 0 and issubclass(cls, core.IntegerElement):
+            # A zero-length integer is 0, which is always written in 1+ bytes.
+            size = None
     sl = xmlEl.get('sizeLength')
     if sl is not None:
         sl = int(sl)
-- 
2.43.0


From 117ec92ffe893e367e877a90b0a1ed980b00853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 13/48] fix: converting an unknown XML element modified the
 UnknownElement class

---
 ebmlite/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 4149248..bc697e0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -250,9 +250,9 @@ def xmlElement2ebml(xmlEl,
         if eid is None:
             raise NameError("Unrecognized EBML element name with no 'id' "
                             "attribute in XML: %s" % xmlEl.tag)
-        cls = core.UnknownElement
         encId = encoding.encodeId(int(eid, 16))
-        cls.id = int(eid, 16)
+        # A subclass: setting the `id` of `UnknownElement` itself would break it.
+        cls = type('UnknownElement', (core.UnknownElement,), {'id': int(eid, 16)})
 
     codec = xmlEl.get('encoding', 'base64')
 
-- 
2.43.0


From 44939d0c61704183abeffbb54a452eb91137dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 14/48] fix: toXml() made unserializable XML if the schema was
 not loaded from a file

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index bc697e0..35fa444 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -178,7 +178,7 @@ def toXml(el: core.Element,
     if isinstance(el, core.Document):
         xmlEl.set('source', el.filename)
         xmlEl.set('schemaName', el.schema.name)
-        xmlEl.set('schemaFile', el.schema.filename)
+        xmlEl.set('schemaFile', el.schema.filename or '')
     else:
         if ids and isinstance(el.id, int):
             xmlEl.set('id', "0x%X" % el.id)
-- 
2.43.0


From 4d3fa81eb74a36dfe6529cfa67deab4a337eebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 15/48] fix: load schemata that define no default DocType

---
 ebmlite/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 66b33c2..6b11c2f 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1142,8 +1142,11 @@ class Schema(object):
             self.elements[el.id] = void
             self.elementsByName['Void'] = void
 
-        # Schema name. Defaults to the schema's default EBML 'DocType'
+        # Schema name. Defaults to the schema's default EBML 'DocType', or
+        # else its base filename (if any).
         self.name = name or self.type
+        if not self.name:
+            self.name = os.path.splitext(os.path.basename(self.filename or ''))[0]
 
         # Create the schema's Document subclass.
         self.document = type('%sDocument' % self.name.title(), (Document,),
-- 
2.43.0


From 49fa612cdee17674500d1863adcc39b951f12d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 16/48] fix: load documents from files without a filename

---
 ebmlite/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 6b11c2f..2d957e2 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -837,6 +837,11 @@ class Document(MasterElement):
 
         try:
             self.filename = stream.name
+            if isinstance(self.filename, int):
+                # An anonymous file (e.g. temporary); its 'name' is its number.
+                self.filename = ""
+                if size is None:
+                    self.size = os.fstat(stream.name).st_size
         except AttributeError:
             self.filename = ""
 
-- 
2.43.0


From b3ab49badda90402006caeb8ee3ea80c85ef6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 17/48] fix: Base64Codec with 0 columns

---
 ebmlite/xml_codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/xml_codecs.py b/ebmlite/xml_codecs.py
index 62407ca..95712f6 100644
--- a/ebmlite/xml_codecs.py
+++ b/ebmlite/xml_codecs.py
@@ -130,7 +130,7 @@ class Base64Codec(BinaryCodec):
 
         result = result.replace('\n', '')
 
-        if self.cols is None:
+        if not self.cols:
             if stream is not None:
                 return out.write(result)
             return result
-- 
2.43.0


From d1e844ccb051ba34783b53c612e2d5ed0bac2955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 18/48] fix: xml2ebml() failed on the 'sizeLength' attribute of
 nested master elements

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 35fa444..9cc2ec2 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -267,7 +267,7 @@ def xmlElement2ebml(xmlEl,
         else:
             sl = int(sl)
     else:
-        sl = xmlEl.get('sizeLength', sizeLength)
+        sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
         ebmlFile.write(encId)
-- 
2.43.0


From 00cf0ea4cf02463a598661dbed96b5dd80e57c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 19/48] fix: xml2ebml() did not refuse nested unknown elements
 if told to

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 9cc2ec2..ff81761 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -275,7 +275,7 @@ def xmlElement2ebml(xmlEl,
         ebmlFile.write(encoding.encodeSize(None, sl))
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl)
+            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown=unknown)
         endPos = ebmlFile.tell()
         ebmlFile.seek(sizePos)
         ebmlFile.write(encoding.encodeSize(size, sl))
-- 
2.43.0


From dc31b7f508107440fc1a90d86ad132788e8222e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 20/48] fix: xml2ebml() wrote a truncated size for master
 elements that grew

---
 ebmlite/util.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index ff81761..83d4ef0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -270,17 +270,17 @@ def xmlElement2ebml(xmlEl,
         sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
-        ebmlFile.write(encId)
-        sizePos = ebmlFile.tell()
-        ebmlFile.write(encoding.encodeSize(None, sl))
+        # The contents may be bigger than they were in the original file (e.g.
+        # the size descriptors of the children may be longer), so the space
+        # needed by this element's own size is not known until they are encoded.
+        payload = BytesIO()
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown=unknown)
-        endPos = ebmlFile.tell()
-        ebmlFile.seek(sizePos)
-        ebmlFile.write(encoding.encodeSize(size, sl))
-        ebmlFile.seek(endPos)
-        return len(encId) + (endPos - sizePos)
+            size += xmlElement2ebml(chEl, payload, schema, sl, unknown=unknown)
+        encoded = encId + encoding.encodeSize(size, max(sl, encoding.getLength(size)))
+        ebmlFile.write(encoded)
+        ebmlFile.write(payload.getvalue())
+        return len(encoded) + size
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
-- 
2.43.0


From 92b8500051cfed9de9f014d7b81d947730fdc087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 21/48] fix: createID() never generated the maximum ID

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 83d4ef0..14741eb 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -74,7 +74,7 @@ def createID(schema: core.Schema,
     exclude = set(exclude).union(schema.elements.keys())
 
     result = []
-    for i in (x for x in range(*idrange) if x not in exclude):
+    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
         if len(result) == count:
             break
         result.append(i)
-- 
2.43.0


From 4bb500c8a9dde8df9f59b950f7b92430e38e023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 22/48] fix: loadXml() accepts the filename of a schema

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 14741eb..56bfd4c 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -405,6 +405,9 @@ def loadXml(xmlFile,
             automatically-generated temporary file.
         :return The root node of the specified EBML file.
     """
+    if not isinstance(schema, core.Schema):
+        schema = core.loadSchema(schema)
+
     if ebmlFile == ":memory:":
         ebmlFile = BytesIO()
         xml2ebml(xmlFile, ebmlFile, schema)
-- 
2.43.0


From d1c340b368322278757efc6c5f5188a01ef30bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 23/48] fix: MasterElement.gc() counts its own cached value

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 2d957e2..c34ae87 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -688,8 +688,9 @@ class MasterElement(Element):
         """
         cleared = 0
         if self._value is not None:
+            cleared = 1
             if recurse:
-                cleared = sum(ch.gc(recurse) for ch in self._value) + 1
+                cleared += sum(ch.gc(recurse) for ch in self._value)
             self._value = None
         return cleared
 
-- 
2.43.0


From 3429bf680a18275246aea3b12c996f03982a401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 24/48] fix: printSchemata() modified the list of paths it was
 given

---
 ebmlite/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 56bfd4c..2b6ec38 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -508,10 +508,7 @@ def printSchemata(paths: Optional[List[Union[str, Path]]] = None,
         out = open(out, 'w')
 
     try:
-        if paths:
-            paths.extend(core.SCHEMA_PATH)
-        else:
-            paths = core.SCHEMA_PATH
+        paths = list(paths or []) + core.SCHEMA_PATH
         schemata = core.listSchemata(*paths, absolute=absolute)
         for k, v in schemata.items():
             out.write("{}\n".format(k))
-- 
2.43.0


From 5fe51a328686fc026d807a8b162b5d4c968f3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 25/48] fix: the tools can write binary output to stdout

---
 ebmlite/tools/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 118cec4..9f00871 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -1,4 +1,5 @@
 import contextlib
+from io import BytesIO
 import sys
 import os.path
 
@@ -27,7 +28,13 @@ def load_files(args, binary_output=False):
         errPrint("Error loading schema: %s\n" % err)
 
     if not args.output:
-        yield schema, sys.stdout
+        if binary_output:
+            # Text streams can't take bytes, and stdout may not be seekable.
+            out = BytesIO()
+            yield schema, out
+            sys.stdout.buffer.write(out.getvalue())
+        else:
+            yield schema, sys.stdout
         return
 
     output = os.path.realpath(os.path.expanduser(args.output))
-- 
2.43.0


From 851530f5c19221f1ac1738707d88754a51117ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 26/48] fix: encodeUnicode() accepts bytes, as it says

---
 ebmlite/encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index 1be8508..21b8287 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -289,7 +289,8 @@ def encodeUnicode(val: str, length: Optional[int] = None) -> bytes:
     if not isinstance(val, (bytearray, bytes, str)):
         raise TypeError('Cannot encode {} {!r} as string'.format(type(val).__name__, val))
 
-    val = val.encode('utf_8')
+    if isinstance(val, str):
+        val = val.encode('utf_8')
 
     if length is not None:
         val = val[:length]
-- 
2.43.0


From 422e6f729bed77403e20917329d206571cd4e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 27/48] fix: loadSchema() ignored an explicit list of paths if
 the name was already loaded

---
 ebmlite/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index c34ae87..0aeadbb 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1593,11 +1593,13 @@ def loadSchema(filename: Union[str, Path],
     """
     global SCHEMATA
 
+    # A name found in an alternative path may be a different file
+    cacheName = not paths
     paths = paths or SCHEMA_PATH
     origName = str(filename)
     filename = Path(filename)
 
-    if origName in SCHEMATA and not reload:
+    if cacheName and origName in SCHEMATA and not reload:
         return SCHEMATA[origName]
 
     filename = _expandSchemaPath(filename)  # raises ModuleNotFoundError
@@ -1626,7 +1628,9 @@ def loadSchema(filename: Union[str, Path],
     with filename.open() as fs:
         schema = Schema(fs, **kwargs)
 
-    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
+    SCHEMATA[str(filename)] = schema
+    if cacheName:
+        SCHEMATA[origName] = schema
     return schema
 
 
-- 
2.43.0


From 72dd229b358ce3dfee3eb06e5b05eabae0d706ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 28/48] fix: xml2ebml() wrote two headers if the XML root is
 the header itself

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 2b6ec38..d216664 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -365,7 +365,7 @@ def xml2ebml(xmlFile,
                         "schema %s (wrong schema)" % (xmlRoot.tag, schema.name))
 
     headers = headers and 'EBML' in schema
-    if headers and 'EBML' not in (el.tag for el in xmlRoot):
+    if headers and xmlRoot.tag != 'EBML' and 'EBML' not in (el.tag for el in xmlRoot):
         pos = ebmlFile.tell()
         cls = schema.document
         ebmlFile.write(cls.encodePayload(cls._createHeaders()))
-- 
2.43.0


From c82723ce65abcf32dc2090aab9c936bdc1a00a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 29/48] fix: schema attribute global="true" was ignored

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 0aeadbb..41934ca 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1305,7 +1305,7 @@ class Schema(object):
             multiple = _getBool(attribs, 'multiple', False)
             precache = _getBool(attribs, 'precache', baseClass.precache)
             length = _getInt(attribs, 'length', None)
-            isGlobal = _getInt(attribs, 'global', None)
+            isGlobal = _getBool(attribs, 'global', None)
 
             if isGlobal is None:
                 # Element 'level'. The old schema format used level to define
-- 
2.43.0


From 57c8d01d9b422be57ca5139c0248c38c83802972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 30/48] fix: infinite elements with an explicit lengthSize

---
 ebmlite/core.py     | 12 +++++++-----
 ebmlite/encoding.py | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 41934ca..e3d2a3e 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -262,9 +262,10 @@ class Element(object):
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
         payload = cls.encodePayload(value, length=length)
-        length = None if infinite else len(payload)
         encId = encoding.encodeId(cls.id)
-        return encId + encoding.encodeSize(length, lengthSize) + payload
+        if infinite:
+            return encId + encoding.encodeUnknownSize(lengthSize) + payload
+        return encId + encoding.encodeSize(len(payload), lengthSize) + payload
 
     def dump(self):
         """ Dump this element's value as nested dictionaries, keyed by
@@ -759,9 +760,10 @@ class MasterElement(Element):
         if isinstance(data, (list, tuple)) and len(data) > 0 and isinstance(data[0], tuple):
             # Name/value pairs: the contents of a single 'master' element.
             payload = cls.encodePayload(data)
-            return (encoding.encodeId(cls.id)
-                    + encoding.encodeSize(None if infinite else len(payload), lengthSize)
-                    + payload)
+            encId = encoding.encodeId(cls.id)
+            if infinite:
+                return encId + encoding.encodeUnknownSize(lengthSize) + payload
+            return encId + encoding.encodeSize(len(payload), lengthSize) + payload
 
         # TODO: Remove 'infinite' kwarg from `Element.encode()` and handle it
         # here, since it only applied to Master elements.
diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index 21b8287..74eb2ed 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -100,6 +100,21 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
         raise ValueError("Cannot encode element size %s" % length)
 
 
+def encodeUnknownSize(length: Optional[int] = None) -> bytes:
+    """ Encode the 'unknown' element size (i.e. all bits 1, following the
+        length marker) used by 'infinite' elements.
+
+        :param length: An explicit length for the encoded size. Defaults to 1.
+        :return: an encoded size for an EBML element.
+        :raise ValueError: raised if the length is invalid.
+    """
+    length = 1 if (length is None or length == -1) else length
+    try:
+        return encodeUInt((LENGTH_PREFIXES[length] << 1) - 1, length)
+    except (IndexError, TypeError, ValueError):
+        raise ValueError("Cannot encode unknown element size to length %r" % length)
+
+
 # ==============================================================================
 # --- Encoding
 # ==============================================================================
-- 
2.43.0


From ec5365adf0db44d9ecc8fcce4dc294b352a6843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 31/48] fix: size and length of a Document from a stream of
 unknown size

---
 ebmlite/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index e3d2a3e..59158d4 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -932,6 +932,13 @@ class Document(MasterElement):
                     raise
                 break
 
+    @classmethod
+    def _isValidChild(cls, elId: int) -> bool:
+        """ Any element can be a root element; if the size of the document is
+            not known, its contents only end at the end of the file.
+        """
+        return True
+
     @property
     def value(self):
         """ An iterator for iterating the document's root elements. Same as
-- 
2.43.0


From e8974a97ddc3c46722efb69f05529d59155db42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 32/48] fix: race of a ThreadAwareFile access with another
 thread's cleanup()

---
 ebmlite/threaded_file.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 38a868f..93a0fc7 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -109,12 +109,13 @@ class ThreadAwareFile(io.FileIO):
 
         # Keyed by the thread itself; its ident may get reused by a later thread.
         ident = currentThread()
-        if ident not in self.threads:
+        # Note: another thread's `cleanup()` may remove it at any time.
+        fp = self.threads.get(ident)
+        if fp is None:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
             self.threads[ident] = fp
-            return fp
-        return self.threads[ident]
+        return fp
 
 
     def closeAll(self):
@@ -151,9 +152,8 @@ class ThreadAwareFile(io.FileIO):
             will get `True`.
         """
         ident = currentThread()
-        if ident in self.threads:
-            return self.threads[ident].closed
-        return True
+        fp = self.threads.get(ident)
+        return fp is None or fp.closed
 
 
     def close(self):
-- 
2.43.0


From e7d0298404ce476d2128438c607028cd4823d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 33/48] fix: cleanup() could drop a stream reopened by its
 thread meanwhile

---
 ebmlite/threaded_file.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 93a0fc7..0c3d0da 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -15,7 +15,7 @@ __all__ = ['ThreadAwareFile']
 
 import io
 import platform
-from threading import currentThread, Event
+from threading import currentThread, Event, Lock
 from typing import BinaryIO, TextIO, Union
 
 
@@ -63,6 +63,10 @@ class ThreadAwareFile(io.FileIO):
         self._ready = Event()  # NOT a lock; some things block, others wait
         self._ready.set()
 
+        # One `cleanup()` at a time. Only it removes streams; another one could
+        # otherwise remove a stream reopened since it found the old one closed.
+        self._cleaning = Lock()
+
         self.threads = {}
         
         if newFile is True:
@@ -135,15 +139,16 @@ class ThreadAwareFile(io.FileIO):
     def cleanup(self):
         """ Delete all closed streams.
         """
-        try:
-            self._ready.wait(self.timeout)
-            self._ready.clear()
-            
-            for i, fp in list(self.threads.items()):
-                if fp.closed:
-                    self.threads.pop(i, None)
-        finally:
-            self._ready.set()
+        with self._cleaning:
+            try:
+                self._ready.wait(self.timeout)
+                self._ready.clear()
+
+                for i, fp in list(self.threads.items()):
+                    if fp.closed:
+                        self.threads.pop(i, None)
+            finally:
+                self._ready.set()
 
 
     @property
-- 
2.43.0


From efb3a04914fdebc2b936fb45f3207d5a4b5d634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 34/48] fix: listSchemata(absolute=False) omitted the schemata
 of module objects

---
 ebmlite/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 59158d4..08a50c4 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1560,6 +1560,10 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
         except ModuleNotFoundError:
             continue
 
+        if isinstance(path, types.ModuleType):
+            # For the relative paths, which loadSchema() can use
+            path = '{%s}' % path.__name__
+
         if not fullpath.is_dir():
             continue
 
-- 
2.43.0


From 963f933a07158075a05d47d9fc5be8c3198537e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 35/48] fix: listSchemata() lists full paths for relative
 directories too

---
 ebmlite/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 08a50c4..d7528d2 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1560,6 +1560,9 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
         except ModuleNotFoundError:
             continue
 
+        if absolute and isinstance(fullpath, Path):
+            fullpath = fullpath.absolute()
+
         if isinstance(path, types.ModuleType):
             # For the relative paths, which loadSchema() can use
             path = '{%s}' % path.__name__
-- 
2.43.0


From 62878e240f52ea1eb9a094ca7ecca735792910ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:30 +0000
Subject: [PATCH 36/48] fix: verify() did not check the elements in the EBML
 header

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index d7528d2..15776b4 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1499,7 +1499,7 @@ class Schema(object):
 
             return True
 
-        return _crawl(self.loads(data))
+        return _crawl(self.load(BytesIO(data), headers=True))
 
 
 # ==============================================================================
-- 
2.43.0


From 5443abefb50975b3c1534511bf07f5be22f64495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 37/48] fix: document class names unusable as XML tags, for
 unusual schema names

---
 ebmlite/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 15776b4..5e26f68 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1163,8 +1163,12 @@ class Schema(object):
         if not self.name:
             self.name = os.path.splitext(os.path.basename(self.filename or ''))[0]
 
-        # Create the schema's Document subclass.
-        self.document = type('%sDocument' % self.name.title(), (Document,),
+        # Create the schema's Document subclass. Its name also serves as the
+        # root element when converted to XML, so it must be usable as such.
+        docname = re.sub(r'[^\w.-]', '_', self.name.title()) + 'Document'
+        if not (docname[0].isalpha() or docname[0] == '_'):
+            docname = '_' + docname
+        self.document = type(docname, (Document,),
                              {'schema': self, 'children': self.children})
 
     def _parseLegacySchema(self, schema):
-- 
2.43.0


From 94208b1f4a7d0974c2cebb8f37b26dc57528c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 38/48] fix: raw data of an element whose unknown size was not
 determined yet

---
 ebmlite/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 5e26f68..3bdc8fb 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -195,14 +195,17 @@ class Element(object):
     def getRaw(self) -> bytes:
         """ Get the element's raw binary data, including EBML headers.
         """
+        # Get the size first; finding that of an 'infinite' element seeks.
+        size = self.size + (self.payloadOffset - self.offset)
         self.stream.seek(self.offset)
-        return self.stream.read(self.size + (self.payloadOffset - self.offset))
+        return self.stream.read(size)
 
     def getRawValue(self) -> bytes:
         """ Get the raw binary of the element's value.
         """
+        size = self.size
         self.stream.seek(self.payloadOffset)
-        return self.stream.read(self.size)
+        return self.stream.read(size)
 
     # ==========================================================================
     # Caching (experimental)
-- 
2.43.0


From c3cf70538313f300815023e1bc7ee9d1b3e27031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 39/48] fix: loadSchema() read schema files in the platform's
 encoding, not their own

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 3bdc8fb..3774334 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1648,7 +1648,8 @@ def loadSchema(filename: Union[str, Path],
     if not filename.is_file():
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
 
-    with filename.open() as fs:
+    # Binary, so the encoding is the one the XML declares, not the platform's
+    with filename.open('rb') as fs:
         schema = Schema(fs, **kwargs)
 
     SCHEMATA[str(filename)] = schema
-- 
2.43.0


From f848a3c67106e59be7d12a5a8ca22e5126994371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 40/48] fix: ebml2xml wrote XML declared as UTF-8 in the
 console's encoding

---
 ebmlite/tools/ebml2xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 5e3ca50..3247f28 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -59,7 +59,7 @@ def main():
     codecargs = {'cols': None} if args.single else {}
     codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding.strip().lower()](**codecargs)
 
-    with utils.load_files(args, binary_output=args.single) as (schema, out):
+    with utils.load_files(args, binary_output=True) as (schema, out):
         doc = schema.load(args.input, headers=True)
         if args.max:
             root = ebmlite.util.toXml(doc, offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)
@@ -69,7 +69,7 @@ def main():
         if args.single:
             out.write(s)
         else:
-            parseString(s).writexml(out, addindent='\t', newl='\n', encoding='utf-8')
+            out.write(parseString(s).toprettyxml(indent='\t', newl='\n', encoding='utf-8'))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From d29c39c62ca3a0d13002aa0fca555807493b5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 41/48] fix: threads not started by 'threading' inherited the
 ThreadAwareFile stream of a finished one

---
 ebmlite/threaded_file.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 0c3d0da..54c0c36 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -15,9 +15,12 @@ __all__ = ['ThreadAwareFile']
 
 import io
 import platform
-from threading import currentThread, Event, Lock
+from threading import Event, local, Lock
 from typing import BinaryIO, TextIO, Union
 
+# Each thread's key in the `threads` of all `ThreadAwareFile` objects.
+_thread = local()
+
 
 class ThreadAwareFile(io.FileIO):
     """ A 'replacement' for a standard read-only file stream that supports
@@ -102,17 +105,29 @@ class ThreadAwareFile(io.FileIO):
             raise TypeError("Not a file: %r" % fileStream)
 
         f = cls(fileStream.name, fileStream.mode, _new=False)
-        f.threads[currentThread()] = fileStream
+        f.threads[f._getIdent()] = fileStream
         return f
 
 
+    @staticmethod
+    def _getIdent() -> object:
+        """ Get the current thread's key in the `threads` dictionary. Note:
+            neither its ident nor the `Thread` object (if the thread was not
+            started by `threading`) is unique, a later thread may get it again.
+        """
+        try:
+            return _thread.ident
+        except AttributeError:
+            _thread.ident = object()
+            return _thread.ident
+
+
     def getThreadStream(self) -> Union[TextIO, BinaryIO]:
         """ Get (or create) the file stream for the current thread.
         """
         self._ready.wait(self.timeout)
 
-        # Keyed by the thread itself; its ident may get reused by a later thread.
-        ident = currentThread()
+        ident = self._getIdent()
         # Note: another thread's `cleanup()` may remove it at any time.
         fp = self.threads.get(ident)
         if fp is None:
@@ -156,8 +171,7 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread()
-        fp = self.threads.get(ident)
+        fp = self.threads.get(self._getIdent())
         return fp is None or fp.closed
 
 
-- 
2.43.0


From 4ac81af49169405d44e047d838762e2d1ae75b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:27 +0000
Subject: [PATCH 42/48] fix: ebml2xml, view_ebml and list_schemata failed to
 start without docstrings (python -OO)

---
 ebmlite/tools/ebml2xml.py      | 2 +-
 ebmlite/tools/list_schemata.py | 2 +-
 ebmlite/tools/view_ebml.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 3247f28..b2339e6 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -16,7 +16,7 @@ def main():
         name = '"{}"'.format(name)
         if codec.NAME == default_codec:
             name += ' (default)'.format(name)
-        codec_desc += '{}: {}\n'.format(name, " ".join(codec.__doc__.split()))
+        codec_desc += '{}: {}\n'.format(name, " ".join((codec.__doc__ or "").split()))
 
     argparser = argparse.ArgumentParser(
         description="A tool for converting ebml to xml."
diff --git a/ebmlite/tools/list_schemata.py b/ebmlite/tools/list_schemata.py
index be39c5b..0e0a237 100644
--- a/ebmlite/tools/list_schemata.py
+++ b/ebmlite/tools/list_schemata.py
@@ -13,7 +13,7 @@ import ebmlite.core
 
 
 def main():
-    argparser = argparse.ArgumentParser(description=__doc__.strip())
+    argparser = argparse.ArgumentParser(description=(__doc__ or "").strip())
 
     argparser.add_argument(
         '-o', '--output', metavar="FILE.txt", help="An optional output file",
diff --git a/ebmlite/tools/view_ebml.py b/ebmlite/tools/view_ebml.py
index 4123201..0341fdc 100644
--- a/ebmlite/tools/view_ebml.py
+++ b/ebmlite/tools/view_ebml.py
@@ -14,7 +14,7 @@ def main():
         name = '"{}"'.format(name)
         if codec.NAME == default_codec:
             name += ' (default)'.format(name)
-        codec_desc += '{}: {}\n'.format(name, " ".join(codec.__doc__.split()))
+        codec_desc += '{}: {}\n'.format(name, " ".join((codec.__doc__ or "").split()))
 
     argparser = argparse.ArgumentParser(
         description="A tool for reading ebml file content."
-- 
2.43.0


From 3efc6c71fc957cb16e7ccb446b8293019b277db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:52 +0000
Subject: [PATCH 43/48] fix: xml2ebml lost the rest of binary data after a
 comment kept by the XML parser

---
 ebmlite/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index d216664..035a154 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -283,7 +283,12 @@ def xmlElement2ebml(xmlEl,
         return len(encoded) + size
 
     elif issubclass(cls, core.BinaryElement):
-        val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
+        text = xmlEl.text
+        for chEl in xmlEl:
+            # A comment in the text, if the parser kept it, splits the text.
+            if chEl.tail and not isinstance(chEl.tag, (str, bytes, bytearray)):
+                text = (text or '') + chEl.tail
+        val = xml_codecs.BINARY_CODECS[codec].decode(text)
     elif issubclass(cls, core.DateElement):
         val = datetime.fromisoformat(xmlEl.get('value'))
     elif issubclass(cls, core.FloatElement):
-- 
2.43.0


From ac8fa4e55297efb94a45a6e678aa3ca32c3726ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:27 +0000
Subject: [PATCH 44/48] fix: schemata in zipped packages could be neither
 loaded by module reference nor listed

---
 ebmlite/core.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 3774334..2f12ec2 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1541,11 +1541,17 @@ def _expandSchemaPath(path: Union[str, Path, types.ModuleType],
             strpath = path
 
     if isinstance(path, types.ModuleType):
-        return importlib_resources.files(path) / subdir / name
+        result = importlib_resources.files(path)
     elif '{' in strpath:
-        return importlib_resources.files(strpath.strip('{} ')) / subdir / name
+        result = importlib_resources.files(strpath.strip('{} '))
+    else:
+        result = Path(path)
 
-    return Path(path) / subdir / name
+    # Note: appending an empty part makes files in zipped packages directories.
+    for part in (subdir, name):
+        if str(part):
+            result = result / part
+    return result
 
 
 def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
@@ -1581,8 +1587,9 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
             key = p.name
             if key.lower().endswith('.xml'):
                 try:
-                    # Casting to string is py35 fix. Remove in future.
-                    xml = ET.parse(str(p))
+                    # Opened by `p`: it may be a resource of a zipped package.
+                    with p.open('rb') as fs:
+                        xml = ET.parse(fs)
                     if xml.getroot().tag == 'Schema':
                         value = p if absolute else Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
@@ -1628,7 +1635,7 @@ def loadSchema(filename: Union[str, Path],
     filename = _expandSchemaPath(filename)  # raises ModuleNotFoundError
 
     if not filename.is_file():
-        if len(filename.parts) == 1:
+        if isinstance(filename, Path) and len(filename.parts) == 1:
             # Not a specific path and file not found: search paths in SCHEMA_PATH
             for p in paths:
                 try:
-- 
2.43.0


From 304f201bebb5869929bb64b85aa55d22b7158958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:41 +0000
Subject: [PATCH 45/48] fix: binary codecs with upper-case names could not be
 chosen in the tools

---
 ebmlite/tools/ebml2xml.py  | 2 +-
 ebmlite/tools/view_ebml.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index b2339e6..774f2a2 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -57,7 +57,7 @@ def main():
     args = argparser.parse_args()
 
     codecargs = {'cols': None} if args.single else {}
-    codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding.strip().lower()](**codecargs)
+    codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding](**codecargs)
 
     with utils.load_files(args, binary_output=True) as (schema, out):
         doc = schema.load(args.input, headers=True)
diff --git a/ebmlite/tools/view_ebml.py b/ebmlite/tools/view_ebml.py
index 0341fdc..6cac0c2 100644
--- a/ebmlite/tools/view_ebml.py
+++ b/ebmlite/tools/view_ebml.py
@@ -46,7 +46,7 @@ def main():
 
     args = argparser.parse_args()
 
-    codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding.strip().lower()]()
+    codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding]()
 
     with utils.load_files(args, binary_output=False) as (schema, out):
         doc = schema.load(args.input, headers=True)
-- 
2.43.0


From 96b642ad39db6f64ca2b8ecca025a6b1b9464139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:50 +0000
Subject: [PATCH 46/48] fix: xml2ebml() closes the file it opened if the
 conversion fails

---
 ebmlite/util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 035a154..fef12b0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -347,10 +347,9 @@ def xml2ebml(xmlFile,
         :raise NameError: raises if an xml element is not present in the schema.
     """
     if isinstance(ebmlFile, (str, Path)):
-        ebmlFile = open(ebmlFile, 'wb')
-        openedEbml = True
-    else:
-        openedEbml = False
+        # Closed whether or not the conversion succeeds.
+        with open(ebmlFile, 'wb') as out:
+            return xml2ebml(xmlFile, out, schema, sizeLength, headers, unknown)
 
     if not isinstance(schema, core.Schema):
         schema = core.loadSchema(schema)
@@ -386,9 +385,6 @@ def xml2ebml(xmlFile,
         numBytes += xmlElement2ebml(xmlRoot, ebmlFile, schema, sizeLength,
                                     unknown=unknown)
 
-    if openedEbml:
-        ebmlFile.close()
-
     return numBytes
 
 # ===========================================================================
-- 
2.43.0


From f8d58e14236f8ff01c6a15a31a30a5c09c2075b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:50 +0000
Subject: [PATCH 47/48] fix: listSchemata() skips XML files in encodings that
 can't be read

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 2f12ec2..558b63c 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1593,7 +1593,8 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                     if xml.getroot().tag == 'Schema':
                         value = p if absolute else Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
-                except (ET.ParseError, IOError, TypeError):
+                except (ET.ParseError, IOError, TypeError, LookupError, ValueError):
+                    # (the last two are for encodings that can't be read)
                     continue
 
     return schemata
-- 
2.43.0


From 9e87526db407ed87369e512a39b5db457944d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:50 +0000
Subject: [PATCH 48/48] fix: a Document that can't use the file it opened
 closes it

---
 ebmlite/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 558b63c..3f08fd0 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -839,7 +839,12 @@ class Document(MasterElement):
         self.size = size
         self.name = name
         self.id = None  # Not applicable to Documents.
-        self.offset = self.payloadOffset = self.stream.tell()
+        try:
+            self.offset = self.payloadOffset = self.stream.tell()
+        except Exception:
+            # e.g. a pipe. Don't leave open what no one else can close.
+            self.close()
+            raise
 
         try:
             self.filename = stream.name
-- 
2.43.0

