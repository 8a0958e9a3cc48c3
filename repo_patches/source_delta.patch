From 0715e7a1d7ba825029dc681541065e2a4ad07a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:29 +0000
Subject: [PATCH 01/64] fix: escape U+FFFE and U+FFFF in serialized strings,
 they are not valid XML characters

---
 src/pypsrp/serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4a6fce7..1a2b98c 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -61,8 +61,9 @@ class Serializer(object):
 
         self.cipher: typing.Any = None
         # Finds C0, C1 and surrogate pairs in a unicode string for us to
-        # encode according to the PSRP rules
-        self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
+        # encode according to the PSRP rules, U+FFFE and U+FFFF are not valid
+        # in an XML document and must be encoded as well
+        self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\ufffe\uffff\U00010000-\U0010ffff]")
 
         # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
         # so we can replace the UTF-16 string representation with the actual
-- 
2.43.0


From 465ff9a680a139e3d53a005336fe47b3bf9b752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:07 +0000
Subject: [PATCH 02/64] fix: decode _xHHHH_ escapes per character so text that
 only resembles an escape is kept

---
 src/pypsrp/serializer.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 1a2b98c..2ae704a 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -65,10 +65,9 @@ class Serializer(object):
         # in an XML document and must be encoded as well
         self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\ufffe\uffff\U00010000-\U0010ffff]")
 
-        # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
-        # so we can replace the UTF-16 string representation with the actual
-        # UTF-16 byte value and then decode that
-        self._deserial_str = re.compile(b"\\x00_\\x00x([\\0\\w]{8})\\x00_")
+        # Finds each escaped UTF-16 code unit, this is matched on the string and
+        # not the UTF-16 bytes as the latter could match in the middle of a char
+        self._deserial_str = re.compile("_x([0-9A-Fa-f]{4})_")
 
     def serialize(
         self,
@@ -768,24 +767,13 @@ class Serializer(object):
             return ""
 
         def rplcr(matchobj):
-            # The matched object is the UTF-16 byte representation of the UTF-8
-            # hex string value. We need to decode the byte str to unicode and
-            # then unhexlify that hex string to get the actual bytes of the
-            # _x****_ value, e.g.
-            # group(0) == b"\x00_\x00x\x000\x000\x000\x00A\x00_"
-            # group(1) == b"\x000\x000\x000\x00A"
-            # unicode (from utf-16-be) == u"000A"
-            # returns b"\x00\x0A"
-            match_hex = matchobj.group(1)
-            hex_string = to_unicode(match_hex, encoding="utf-16-be")
-            return binascii.unhexlify(hex_string)
-
-        # need to ensure we start with a unicode representation of the string
-        # so that we can get the actual UTF-16 bytes value from that string
-        unicode_value = to_unicode(value)
-        unicode_bytes = to_bytes(unicode_value, encoding="utf-16-be")
-        bytes_value = re.sub(self._deserial_str, rplcr, unicode_bytes)
-        return to_unicode(bytes_value, encoding="utf-16-be")
+            return chr(int(matchobj.group(1), 16))
+
+        # once each _x****_ has been replaced by the UTF-16 code unit it stands
+        # for we need to go through the UTF-16 bytes to combine the surrogate
+        # pairs, a surrogate that isn't part of a pair is kept as is
+        string_value = re.sub(self._deserial_str, rplcr, to_unicode(value))
+        return string_value.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")
 
     def _deserialize_secure_string(self, value: ET.Element) -> typing.Union[ET.Element, str]:
         if self.cipher is None:
-- 
2.43.0


From 287de22c704879bc32aeca54ae8fd69c095dcb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 03/64] fix: do not modify the metadata passed to serialize

---
 src/pypsrp/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 2ae704a..a20e0a9 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -100,7 +100,9 @@ class Serializer(object):
 
             return value
 
-        metadata = metadata or ObjectMeta()
+        # the metadata can be shared by many values, do not set the tag of this
+        # value on it
+        metadata = copy(metadata) if metadata else ObjectMeta()
         if metadata.tag == "*":
             if isinstance(value, TaggedValue):
                 metadata.tag = value.tag
-- 
2.43.0


From b1524733dddb4cb4977281c42ba0062791b06258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 04/64] fix: do not empty the queue or stack that is serialized

---
 src/pypsrp/serializer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index a20e0a9..f7af47b 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -482,6 +482,10 @@ class Serializer(object):
             metadata = QueueMeta(name=metadata.name, optional=metadata.optional)
         self._create_tn(obj, metadata.list_types)
 
+        # read from a copy so the queue of the caller is left as is
+        values = copy(values)
+        values.queue = copy(values.queue)
+
         que = ET.SubElement(obj, "QUE")
         while True:
             try:
@@ -500,6 +504,8 @@ class Serializer(object):
         obj = ET.Element("Obj", RefId=self._get_obj_id())
         self._create_tn(obj, metadata.list_types)
 
+        values = list(values)
+
         stk = ET.SubElement(obj, "STK")
         while True:
             try:
-- 
2.43.0


From aa8081cb0b8241c916e776ab860aeb2457c08167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 05/64] fix: write the value of a DateTime instead of dropping
 it

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index f7af47b..dcd8b38 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -116,7 +116,7 @@ class Serializer(object):
             "ToString": lambda d: self._serialize_string(d),
             "C": lambda m, d: str(ord(d)),
             "B": lambda m, d: str(d).lower(),
-            "DT": lambda m, d: None,
+            "DT": lambda m, d: str(d),
             "TS": lambda m, d: str(d),
             "By": lambda m, d: str(d),
             "SB": lambda m, d: str(d),
-- 
2.43.0


From f28c4e91e7dec0c0019d43d4316427e59fb04da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 06/64] fix: write infinite and NaN floats in the form used in
 XML

---
 src/pypsrp/serializer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index dcd8b38..612e2aa 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -126,8 +126,8 @@ class Serializer(object):
             "I32": lambda m, d: str(d),
             "U64": lambda m, d: str(d),
             "I64": lambda m, d: str(d),
-            "Sg": lambda m, d: str(d),
-            "Db": lambda m, d: str(d),
+            "Sg": lambda m, d: self._serialize_float(d),
+            "Db": lambda m, d: self._serialize_float(d),
             "D": lambda m, d: str(d),
             "BA": lambda m, d: to_string(base64.b64encode(d)),
             "G": lambda m, d: str(d),
@@ -569,6 +569,13 @@ class Serializer(object):
 
         return obj
 
+    def _serialize_float(
+        self,
+        value: typing.Any,
+    ) -> str:
+        # XML uses different names for the values that are not finite numbers
+        return {"inf": "INF", "-inf": "-INF", "nan": "NaN"}.get(str(value), str(value))
+
     def _serialize_string(
         self,
         value: typing.Optional[str],
-- 
2.43.0


From d1bbf2c2567c302f85e7ad9bf72cb97dbfead641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 07/64] fix: deserialize an empty byte array

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 612e2aa..a3d9b02 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -214,7 +214,7 @@ class Serializer(object):
             "Sg": lambda d: float(d.text),
             "Db": lambda d: float(d.text),
             "D": lambda d: d.text,  # TODO: deserialize this
-            "BA": lambda d: base64.b64decode(d.text),
+            "BA": lambda d: base64.b64decode(d.text or ""),
             "G": lambda d: uuid.UUID(d.text),
             "URI": lambda d: self._deserialize_string(d.text),
             "Nil": lambda d: None,
-- 
2.43.0


From c5414a84c2b19dd4b85cb36616cccca3f20bf093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 08/64] fix: only reference type names that are the same as the
 ones of the object

---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index a3d9b02..4f58b03 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -839,12 +839,12 @@ class Serializer(object):
         parent: ET.Element,
         types: typing.List[str],
     ) -> None:
-        main_type = types[0]
-        ref_id = self.tn.get(main_type, None)
+        type_names = tuple(types)
+        ref_id = self.tn.get(type_names, None)
         if ref_id is None:
             ref_id = self.tn_id
             self.tn_id += 1
-            self.tn[main_type] = ref_id
+            self.tn[type_names] = ref_id
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-- 
2.43.0


From dc85f58996f00a4e2fddd70de8ef73e52207897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 09/64] fix: write the property name on a reference to an
 object

---
 src/pypsrp/serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4f58b03..05dbb30 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -863,6 +863,8 @@ class Serializer(object):
             for ref, value in self.obj.items():
                 if value == obj:
                     sub_element = ET.SubElement(parent, "Ref", RefId=ref)
+                    if key is None and meta is not None:
+                        key = meta.name
                     if key is not None:
                         sub_element.attrib["N"] = key
                     return
-- 
2.43.0


From 1aabda1db9d7d40dd52d2ad1c78694af0600d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 10/64] fix: deserialize collections that are an element of an
 object array

---
 src/pypsrp/serializer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 05dbb30..576ca94 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -229,6 +229,11 @@ class Serializer(object):
         if unpack_function is not None:
             return unpack_function(element)
 
+        # an element of an untyped collection can be a collection itself which is
+        # then identified by its own types
+        if metadata.tag == "ObjDynamic" and any(element.find(t) is not None for t in ["LST", "QUE", "STK", "DCT"]):
+            metadata = ObjectMeta(element.tag)
+
         # not a primitive object, so try and decode the complex object
         if type(metadata) == ObjectMeta and metadata.object is None:
             structures = {
-- 
2.43.0


From 221dc63eb14572d0de2de5ff915eff4c45e2ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:10 +0000
Subject: [PATCH 11/64] fix: escape the property names of objects like any
 other string

---
 src/pypsrp/serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 576ca94..a79d400 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -701,12 +701,12 @@ class Serializer(object):
                 obj.types = self.tn[obj_property.attrib["RefId"]]
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
-                    key = adapted_property.attrib["N"]
+                    key = self._deserialize_string(adapted_property.attrib["N"])
                     value = self.deserialize(adapted_property, clear=False)
                     obj.adapted_properties[key] = value
             elif obj_property.tag == "MS":
                 for extended_property in obj_property:
-                    key = extended_property.attrib["N"]
+                    key = self._deserialize_string(extended_property.attrib["N"])
                     value = self.deserialize(extended_property, clear=False)
                     obj.extended_properties[key] = value
             elif obj_property.tag == "ToString":
@@ -871,11 +871,11 @@ class Serializer(object):
                     if key is None and meta is not None:
                         key = meta.name
                     if key is not None:
-                        sub_element.attrib["N"] = key
+                        sub_element.attrib["N"] = self._serialize_string(key)
                     return
 
         if meta is None:
-            meta = ObjectMeta(name=key)
+            meta = ObjectMeta(name=self._serialize_string(key))
         self.serialize(obj, metadata=meta, parent=parent, clear=False)
 
 
-- 
2.43.0


From 7e5b6ecf9f7eb5b1fd7172c62f653dd58219f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:43 +0000
Subject: [PATCH 12/64] fix: send the rest of the session data when it does not
 fit in the Create message

---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 62f1194..46f7116 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -565,6 +565,10 @@ class RunspacePool(object):
         self.shell.open(options, open_content)
         self.state = RunspacePoolState.NEGOTIATION_SENT
 
+        # the remaining fragments did not fit in the Create message
+        for fragment in fragments:
+            self.shell.send("stdin", fragment)
+
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
             responses.extend(self._receive())
-- 
2.43.0


From 55423986d8b022546ca2f3637b59399cd4cb7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:56 +0000
Subject: [PATCH 13/64] fix: leave room for the fragment header after the
 payload size was updated

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 46f7116..7cb2dcb 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -847,7 +847,7 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self.connection.max_payload_size
+            self._fragmenter.max_size = self.connection.max_payload_size - 21  # take away the fragment header size
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From 96866d33df48d34bd4508d334359bda8331c019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:35 +0000
Subject: [PATCH 14/64] fix: write an ErrorRecord that is created locally, with
 every field and each one once

---
 src/pypsrp/complex_objects.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0390b23..6f0aa74 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -805,7 +805,6 @@ class ErrorRecord(ComplexObject):
             ("details_message", ObjectMeta("S", name="ErrorDetails_Message", optional=True)),
             ("action", ObjectMeta("S", name="ErrorDetails_RecommendedAction", optional=True)),
             ("script_stacktrace", ObjectMeta("S", name="ErrorDetails_ScriptStackTrace", optional=True)),
-            ("extended_info_present", ObjectMeta("B", name="SerializeExtendedInfo")),
             ("invocation_name", ObjectMeta("S", optional=True, name="InvocationInfo_InvocationName")),
             (
                 "invocation_bound_parameters",
@@ -897,8 +896,9 @@ class ErrorRecord(ComplexObject):
             ),
         )
         self.exception = kwargs.get("exception")
-        self.target_info = kwargs.get("target_info")
-        self.invocation = kwargs.get("invocation")
+        self.target_object = kwargs.get("target_object", kwargs.get("target_info"))
+        self.invocation = kwargs.get("invocation") or False
+        self.invocation_info = kwargs.get("invocation_info")
         self.fq_error = kwargs.get("fq_error")
         self.category = kwargs.get("category")
         self.activity = kwargs.get("activity")
@@ -908,6 +908,7 @@ class ErrorRecord(ComplexObject):
         self.message = kwargs.get("message")
         self.details_message = kwargs.get("details_message")
         self.action = kwargs.get("action")
+        self.script_stacktrace = kwargs.get("script_stacktrace")
         self.pipeline_iteration_info = kwargs.get("pipeline_iteration_info")
         self.invocation_name = kwargs.get("invocation_name")
         self.invocation_bound_parameters = kwargs.get("invocation_bound_parameters")
@@ -927,7 +928,10 @@ class ErrorRecord(ComplexObject):
         self.command_definition = kwargs.get("command_definition")
         self.command_name = kwargs.get("command_name")
         self.command_visibility = kwargs.get("command_visibility")
-        self.extended_info_present = self.invocation is not None
+
+    @property
+    def extended_info_present(self):
+        return self.invocation
 
 
 class InformationalRecord(ComplexObject):
-- 
2.43.0


From 8144897f2d1ac81c678e083107c6cb6a9289e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:10 +0000
Subject: [PATCH 15/64] fix: keep carriage returns in the text of a request

---
 src/pypsrp/wsman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0903ce9..8d8bfd8 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -488,7 +488,8 @@ class WSMan(object):
         if resource is not None:
             body.append(resource)
 
-        xml = ET.tostring(envelope, encoding="utf-8", method="xml")
+        # a literal CR in the text of an element is read as LF by an XML parser
+        xml = ET.tostring(envelope, encoding="utf-8", method="xml").replace(b"\r", b"&#13;")
 
         try:
             response = self.transport.send(
-- 
2.43.0


From 17c5563004c9522690f59de8ef95565cda26bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:57 +0000
Subject: [PATCH 16/64] fix: raise the transport error when the body of a
 failed response is XML but no fault

---
 src/pypsrp/wsman.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 8d8bfd8..31732fd 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -633,20 +633,23 @@ class WSMan(object):
         provider_fault = None
 
         fault = xml.find("s:Body/s:Fault", namespaces=NAMESPACES)
-        if fault is not None:
-            code_info = fault.find("s:Code/s:Subcode/s:Value", namespaces=NAMESPACES)
+        if fault is None:
+            # XML but not a fault, the caller reports it like any other unknown response
+            raise ET.ParseError("The response does not contain a SOAP fault")
+
+        code_info = fault.find("s:Code/s:Subcode/s:Value", namespaces=NAMESPACES)
+        if code_info is not None:
+            code = code_info.text
+        else:
+            code_info = fault.find("s:Code/s:Value", namespaces=NAMESPACES)
             if code_info is not None:
                 code = code_info.text
-            else:
-                code_info = fault.find("s:Code/s:Value", namespaces=NAMESPACES)
-                if code_info is not None:
-                    code = code_info.text
 
-            reason_info = fault.find("s:Reason/s:Text", namespaces=NAMESPACES)
-            if reason_info is not None:
-                reason = reason_info.text
+        reason_info = fault.find("s:Reason/s:Text", namespaces=NAMESPACES)
+        if reason_info is not None:
+            reason = reason_info.text
 
-        wsman_fault = fault.find("s:Detail/wsmanfault:WSManFault", namespaces=NAMESPACES) if fault is not None else None
+        wsman_fault = fault.find("s:Detail/wsmanfault:WSManFault", namespaces=NAMESPACES)
         if wsman_fault is not None:
             code = wsman_fault.attrib.get("Code", code)
             machine = wsman_fault.attrib.get("Machine")
-- 
2.43.0


From 6a2d77d530ca978ea6e53bf0a8a07d770e1bb8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:07 +0000
Subject: [PATCH 17/64] fix: keep the reason of a fault whose message holds
 nothing but whitespace

---
 src/pypsrp/wsman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 31732fd..9156c19 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -658,7 +658,7 @@ class WSMan(object):
             if message_info is not None:
                 # message may still not be set, fall back to the existing
                 # reason value from the base soap Fault element
-                reason = message_info.text or reason
+                reason = (message_info.text or "").strip() or reason
 
             provider_info = wsman_fault.find("wsmanfault:Message/wsmanfault:ProviderFault", namespaces=NAMESPACES)
             if provider_info is not None:
-- 
2.43.0


From 646e69eb8dec46938d99ab3c6b712689118994f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:30 +0000
Subject: [PATCH 18/64] fix: leave room for the resource URI of a long
 configuration name in the fragment size

---
 src/pypsrp/powershell.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 7cb2dcb..b1880cb 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -175,12 +175,20 @@ class RunspacePool(object):
         self._min_runspaces = min_runspaces
         self._max_runspaces = max_runspaces
         self._serializer = Serializer()
-        self._fragmenter = Fragmenter(self.connection.max_payload_size, self._serializer)
+        self._fragmenter = Fragmenter(self._max_fragment_size, self._serializer)
         self._exchange_key: typing.Optional[rsa.RSAPrivateKeyWithSerialization] = None
         self._key_exchanged = False
         self._new_client = False
         self._ci_counter = 0
 
+    @property
+    def _max_fragment_size(self) -> int:
+        # The connection leaves room for the URI of the default configuration,
+        # a longer one leaves less room for the payload.
+        default_uri = "http://schemas.microsoft.com/powershell/%s" % DEFAULT_CONFIGURATION_NAME
+        extra = len(self.shell.resource_uri) - len(default_uri)
+        return self.connection.max_payload_size - max(0, extra)
+
     @property
     def application_private_data(self) -> typing.Optional[ApplicationPrivateData]:
         """
@@ -847,7 +855,7 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self.connection.max_payload_size - 21  # take away the fragment header size
+            self._fragmenter.max_size = self._max_fragment_size - 21  # take away the fragment header size
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From 59069fe7865780bea555bcdce7dd3b0f1e0ba5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:43 +0000
Subject: [PATCH 19/64] fix: split the input of a process that does not fit in
 a single request

---
 src/pypsrp/shell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index a8f446e..7962937 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -466,6 +466,12 @@ class Process(object):
         :param end: Whether this is the last input to send
         :return:
         """
+        # data that is larger than a single request is sent in as many as needed
+        max_size = self.shell.wsman.max_payload_size
+        while len(data) > max_size > 0:
+            self.shell.send("stdin", data[:max_size], command_id=self.id, end=False)
+            data = data[max_size:]
+
         self.shell.send("stdin", data, command_id=self.id, end=end)
 
     def signal(self, code: str) -> None:
-- 
2.43.0


From eb1cb398d808f24a1d5070eb0ef5ffb9da3758ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:12 +0000
Subject: [PATCH 20/64] fix: take the boundary of an encrypted response
 literally when removing the end mark

---
 src/pypsrp/encryption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/encryption.py b/src/pypsrp/encryption.py
index 1442a0a..52fc3ce 100644
--- a/src/pypsrp/encryption.py
+++ b/src/pypsrp/encryption.py
@@ -55,7 +55,7 @@ class WinRMEncryption(object):
             expected_length = int(header.split(b"Length=")[1])
 
             # remove the end MIME block if it exists
-            payload = re.sub(to_bytes(r"--\s*%s--\r\n$") % to_bytes(boundary), b"", payload)
+            payload = re.sub(to_bytes(r"--\s*%s--\r\n$" % re.escape(boundary)), b"", payload)
 
             wrapped_data = payload.replace(b"\tContent-Type: application/octet-stream\r\n", b"")
             header_length = struct.unpack("<i", wrapped_data[:4])[0]
-- 
2.43.0


From 04f844d795daefd95589cfa098fcf06a42b434d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:52 +0000
Subject: [PATCH 21/64] fix: find the security context of hosts that are not
 plain ASCII

---
 src/pypsrp/wsman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 9156c19..40c0d82 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -830,7 +830,6 @@ class _TransportHTTP(object):
         retries_on_read_timeout: int = 0,
         timeout: int | float | tuple[int | float, int | float] | None = None,
     ) -> bytes:
-        hostname = get_hostname(self.endpoint)
         if self.session is None:
             self.session = self._build_session()
 
@@ -853,6 +852,8 @@ class _TransportHTTP(object):
                     time.sleep(self.reconnection_backoff * (2**attempt))
                     continue
 
+                # the contexts are stored under the name in the URL as requests has normalised it
+                hostname = get_hostname(prep_request.url)
                 protocol = WinRMEncryption.SPNEGO
                 if isinstance(self.session.auth, HttpCredSSPAuth):
                     protocol = WinRMEncryption.CREDSSP
-- 
2.43.0


From 0f3c40f073f194e99fc1f813f6df1760fc8efdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:04 +0000
Subject: [PATCH 22/64] fix: authenticate again after a connection error that
 is not retried

---
 src/pypsrp/wsman.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 40c0d82..ed38b47 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -891,15 +891,19 @@ class _TransportHTTP(object):
                     prep_request,
                     timeout=timeout,
                 )
-            except (requests.ReadTimeout, requests.ConnectTimeout) as e:
+            except (requests.ReadTimeout, requests.ConnectionError) as e:
+                # On a failure the encryption state is invalidated and needs to
+                # be recreated after authentication is done. This also applies
+                # to later requests if this one is not attempted again.
+                self.encryption = None
+
+                if not isinstance(e, (requests.ReadTimeout, requests.ConnectTimeout)):
+                    raise
+
                 log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
                 if attempt == retries_on_read_timeout:
                     raise
 
-                # On a failure the encryption state is invalidated and needs to
-                # be recreated after authentication is done.
-                self.encryption = None
-
                 attempt += 1
                 time.sleep(self.reconnection_backoff * (2**attempt - 1))
 
-- 
2.43.0


From ae2211ecfc103529e607dbf389f203ad9cd7ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:54 +0000
Subject: [PATCH 23/64] fix: do not replace the certificate authorization
 header with credentials of a netrc file

---
 src/pypsrp/wsman.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index ed38b47..bd94e8c 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -1044,6 +1044,11 @@ class _TransportHTTP(object):
         session.cert = (self.certificate_pem, self.certificate_key_pem)
         session.headers["Authorization"] = "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual"
 
+        # without an auth handler requests replaces the header with the
+        # credentials in a .netrc file. The proxy and verify settings of the
+        # environment are already part of the session.
+        session.trust_env = False
+
     def _build_auth_credssp(self, session: requests.Session) -> None:
         if self.username is None:
             raise ValueError("For credssp auth, the username must be specified")
-- 
2.43.0


From 6d177440d4a37566da9111ba10f9450a83074362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:59 +0000
Subject: [PATCH 24/64] fix: create the command of a process under the id it
 was given

---
 src/pypsrp/shell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index 7962937..cc11699 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -405,6 +405,7 @@ class Process(object):
         log.debug("Creating WinRS process for '%s' with arguments '%s'" % (executable, arguments))
         self.shell = shell
         self.id = id
+        self._command_id = id
         self.no_shell = no_shell
         self.executable = executable
         self.arguments = arguments
@@ -419,9 +420,11 @@ class Process(object):
         poll_invoke to get the latest output/status of the command and
         end_invoke to wait until the process is complete.
         """
-        response = self.shell.command(self.executable, self.arguments, no_shell=self.no_shell)
+        response = self.shell.command(
+            self.executable, self.arguments, no_shell=self.no_shell, command_id=self._command_id
+        )
         command_id = response.find("rsp:CommandResponse/rsp:CommandId", namespaces=NAMESPACES)
-        self.id = command_id.text if command_id is not None else None
+        self.id = command_id.text if command_id is not None else self._command_id
 
     def end_invoke(self) -> None:
         """
-- 
2.43.0


From 8266f8b6049de5c585c4653a7efba1a6047e1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:59 +0000
Subject: [PATCH 25/64] fix: wait for a process that is invoked again and do
 not keep its old results

---
 src/pypsrp/shell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index cc11699..e9ffd5e 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -420,6 +420,12 @@ class Process(object):
         poll_invoke to get the latest output/status of the command and
         end_invoke to wait until the process is complete.
         """
+        # a process can be invoked again, the results are those of the last time
+        self.state = CommandState.PENDING
+        self.rc = None
+        self.stdout = b""
+        self.stderr = b""
+
         response = self.shell.command(
             self.executable, self.arguments, no_shell=self.no_shell, command_id=self._command_id
         )
-- 
2.43.0


From d652842ab13c6b86fb7a32b0dd8caa41825f0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:10 +0000
Subject: [PATCH 26/64] fix: send a valid idle timeout when a shell is opened
 again

---
 src/pypsrp/shell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index e9ffd5e..c6f6004 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -182,7 +182,11 @@ class WinRS(object):
                 ET.SubElement(env, "{%s}Variable" % rsp, Name=str(key)).text = str(value)
 
         if self.idle_time_out is not None:
-            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = "PT%sS" % str(self.idle_time_out)
+            # once the shell was opened this is the duration the server reported
+            idle_time_out = str(self.idle_time_out)
+            if not idle_time_out.startswith("P"):
+                idle_time_out = "PT%sS" % idle_time_out
+            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = idle_time_out
 
         if self.lifetime is not None:
             ET.SubElement(shell, "{%s}Lifetime" % rsp).text = "PT%sS" % self.lifetime
-- 
2.43.0


From 233fbf9672c30008b3ece75d9061230d15005791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:20 +0000
Subject: [PATCH 27/64] fix: do not add the options of a shell to the option
 set of the caller

---
 src/pypsrp/shell.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index c6f6004..215a22d 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -200,9 +200,11 @@ class WinRS(object):
         if open_content is not None:
             shell.append(open_content)
 
-        # inherit the base options if it was passed in, otherwise use an empty
-        # option set
-        options = OptionSet() if base_options is None else base_options
+        # inherit a copy of the base options if it was passed in, the options of
+        # this shell are not added to the ones of the caller
+        options = OptionSet()
+        if base_options is not None:
+            options.values.extend(base_options.values)
         if self.no_profile:
             options.add_option("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"})
         if self.codepage is not None:
-- 
2.43.0


From eff8ac4aed6a9eb6c1bab53acf586ec61c1ce33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:37 +0000
Subject: [PATCH 28/64] fix: exchange the session key when the server asks for
 it

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index b1880cb..a0b4168 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -763,7 +763,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys,
+            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys(),
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
-- 
2.43.0


From b679d3d77cdfdc62b71d1c049c3314dfb571ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:48 +0000
Subject: [PATCH 29/64] fix: refuse to exchange keys on a pool that is not open

---
 src/pypsrp/powershell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index a0b4168..d41ac8f 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -589,6 +589,8 @@ class RunspacePool(object):
         happen.
         """
         log.info("Starting key exchange with remote host")
+        if self.state != RunspacePoolState.OPENED:
+            raise InvalidRunspacePoolStateError(self.state, RunspacePoolState.OPENED, "exchange keys")
         if self._key_exchanged or self._exchange_key is not None:
             # key is already exchanged or we are still in the processes of
             # exchanging it, no need to run again
-- 
2.43.0


From b96859c4bb18c50db0b7c1f378bf71906eef8d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:59 +0000
Subject: [PATCH 30/64] fix: do not change the maximum runspaces when asking
 for the available ones

---
 src/pypsrp/powershell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index d41ac8f..b29f27d 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -398,8 +398,10 @@ class RunspacePool(object):
         :return: The number of available runspaces in the pool
         """
 
+        if self.state != RunspacePoolState.OPENED:
+            raise InvalidRunspacePoolStateError(self.state, RunspacePoolState.OPENED, "get available runspaces")
+
         def response_handler(response):
-            self._max_runspaces = response
             return response
 
         ci = self._ci_counter
-- 
2.43.0


From 0c8015d38165baa8a02d9639849729559f2d68cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:32 +0000
Subject: [PATCH 31/64] fix: do not lose the messages that follow a refused
 runspace change

---
 src/pypsrp/powershell.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index b29f27d..82bdd17 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -221,8 +221,6 @@ class RunspacePool(object):
             return
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set minimum runspaces")
             return response
 
         ci = self._ci_counter
@@ -235,8 +233,9 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to set minimum runspaces")
         self._min_runspaces = min_runspaces
-        del self.ci_table[ci]
 
     @property
     def max_runspaces(self) -> int:
@@ -262,8 +261,6 @@ class RunspacePool(object):
             return
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set maximum runspaces")
             return response
 
         ci = self._ci_counter
@@ -276,8 +273,9 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to set maximum runspaces")
         self._max_runspaces = max_runspaces
-        del self.ci_table[ci]
 
     def __enter__(self) -> "RunspacePool":
         self.open()
@@ -649,8 +647,6 @@ class RunspacePool(object):
             )
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to reset runspace state")
             return response
 
         ci = self._ci_counter
@@ -663,7 +659,8 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
-        del self.ci_table[ci]
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to reset runspace state")
 
     def serialize(
         self,
-- 
2.43.0


From 8785c667c20caa8adbb973ac921f7b6812aba3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:43 +0000
Subject: [PATCH 32/64] fix: keep the state of pipelines that have ended when
 the pool is disconnected

---
 src/pypsrp/powershell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 82bdd17..1760d31 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -386,7 +386,9 @@ class RunspacePool(object):
         self.connection.disconnect(self.shell.resource_uri, disconnect, selector_set=selector_set)
         self.state = RunspacePoolState.DISCONNECTED
         for pipeline in self.pipelines.values():
-            pipeline.state = PSInvocationState.DISCONNECTED
+            # a pipeline that has ended stays that way and can still be closed
+            if pipeline.state == PSInvocationState.RUNNING:
+                pipeline.state = PSInvocationState.DISCONNECTED
 
     def get_available_runspaces(self) -> int:
         """
-- 
2.43.0


From 65c413f417c6ef67ed54ecf0cf0c2614d6e00f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:43 +0000
Subject: [PATCH 33/64] fix: keep the configuration of listed pools and do not
 list shells that are no pools

---
 src/pypsrp/powershell.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 1760d31..5bcc768 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -500,10 +500,19 @@ class RunspacePool(object):
         runspace_pools = []
         for shell in shells:
             shell_id: str = shell.find("rsp:ShellId", NAMESPACES).text  # type: ignore # Mandated by spec
+
+            # the server sends all shells, those of other kinds are no Runspace Pools
+            resource_uri = shell.findtext("rsp:ResourceUri", namespaces=NAMESPACES)
+            if resource_uri and not resource_uri.lower().startswith("http://schemas.microsoft.com/powershell/"):
+                continue
+
             pool = RunspacePool(connection)
             pool.id = shell_id
             pool.shell.id = shell_id
             pool.shell.opened = True
+            if resource_uri:
+                pool.shell.resource_uri = resource_uri
+                pool._fragmenter.max_size = pool._max_fragment_size - 21
             pool._new_client = True
 
             # Seems like the server sends all pools not just disconnected but
-- 
2.43.0


From e987685a04f27c987adefb2df5ab95bd40dbae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:52 +0000
Subject: [PATCH 34/64] fix: close a listed pool that was not connected with
 its own selector

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 5bcc768..32e1f1d 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -529,6 +529,7 @@ class RunspacePool(object):
             selector_set = SelectorSet()
             selector_set.add_option("ShellId", shell_id)
             filter.append(selector_set.pack())
+            pool.shell._selector_set = selector_set
 
             resp = connection.enumerate("http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Command", enum_msg)
             commands = resp.findall("wsen:EnumerateResponse/wsman:Items/rsp:Command", NAMESPACES)
-- 
2.43.0


From d2264947c98f1c266501548778a8a8546487f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:03 +0000
Subject: [PATCH 35/64] fix: allow a pool connected by another client to
 exchange keys and ask for runspaces

---
 src/pypsrp/powershell.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 32e1f1d..1e71be2 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -398,7 +398,8 @@ class RunspacePool(object):
         :return: The number of available runspaces in the pool
         """
 
-        if self.state != RunspacePoolState.OPENED:
+        # a pool connected by another client is not in the Opened state
+        if self.state not in [RunspacePoolState.OPENED, RunspacePoolState.DISCONNECTED]:
             raise InvalidRunspacePoolStateError(self.state, RunspacePoolState.OPENED, "get available runspaces")
 
         def response_handler(response):
@@ -601,7 +602,8 @@ class RunspacePool(object):
         happen.
         """
         log.info("Starting key exchange with remote host")
-        if self.state != RunspacePoolState.OPENED:
+        # a pool connected by another client is not in the Opened state
+        if self.state not in [RunspacePoolState.OPENED, RunspacePoolState.DISCONNECTED]:
             raise InvalidRunspacePoolStateError(self.state, RunspacePoolState.OPENED, "exchange keys")
         if self._key_exchanged or self._exchange_key is not None:
             # key is already exchanged or we are still in the processes of
-- 
2.43.0


From 95fe7c53faa0d6483f380156c7f8672a566e4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:46 +0000
Subject: [PATCH 36/64] fix: send the end of the pipeline input exactly when
 the pipeline was declared to have input

---
 src/pypsrp/powershell.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 1e71be2..e52c044 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1256,7 +1256,8 @@ class PowerShell(object):
         if len(self.commands) == 0:
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
-        no_input = input is None or not input
+        # only an empty list holds no input, other false values are an input
+        no_input = input is None or (isinstance(input, list) and len(input) == 0)
         apartment_state = apartment_state or self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
@@ -1278,7 +1279,7 @@ class PowerShell(object):
         self._invoke(create_pipeline)
 
         # finally send the input if any was specified
-        if input is not None:
+        if not no_input:
             if not isinstance(input, types.GeneratorType):
 
                 def input_gen(i: bytes) -> typing.Iterator[bytes]:
@@ -1287,18 +1288,21 @@ class PowerShell(object):
                 input = input_gen(input)  # type: ignore[arg-type]
 
             log.info("Sending input to remote Pipeline")
-            next_input = next(input)
-            while next_input is not None:
-                if not isinstance(next_input, list):
-                    next_input = [next_input]
-
-                input_msgs: typing.List[ComplexObject] = [PipelineInput(data=d) for d in next_input]
-
-                try:
-                    next_input = next(input)
-                except StopIteration:
+            end = object()  # None is a valid input
+            next_input = next(input, end)
+            input_ended = False
+            while not input_ended:
+                input_msgs: typing.List[ComplexObject] = []
+                if next_input is not end:
+                    if not isinstance(next_input, list):
+                        next_input = [next_input]
+
+                    input_msgs.extend([PipelineInput(data=d) for d in next_input])
+                    next_input = next(input, end)
+
+                if next_input is end:
                     input_msgs.append(EndOfPipelineInput())
-                    next_input = None
+                    input_ended = True
 
                 fragments = self.runspace_pool._fragmenter.fragment_multiple(input_msgs, self.runspace_pool.id, self.id)
 
-- 
2.43.0


From ffac1ac7c29c7d8069a82d7801a1917413073c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:56 +0000
Subject: [PATCH 37/64] fix: stop a pipeline by the command id the server gave
 it

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index e52c044..e33dc3e 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1542,7 +1542,7 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self.id).upper())
+        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or str(self.id).upper())
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From e2eee47c26102c6deaff77cf9b92179c96bada80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:07 +0000
Subject: [PATCH 38/64] fix: do not keep the had errors flag of an earlier
 invocation

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index e33dc3e..5866542 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1276,6 +1276,7 @@ class PowerShell(object):
             pipeline,
             self.is_nested,
         )
+        self.had_errors = False
         self._invoke(create_pipeline)
 
         # finally send the input if any was specified
-- 
2.43.0


From c3fd0828ef48ebe751fde3b419b170edd2fa1431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:36 +0000
Subject: [PATCH 39/64] fix: do not end the last statement of the caller when
 the pipeline is sent

---
 src/pypsrp/complex_objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 6f0aa74..8b2b7bd 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -509,8 +509,6 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        # set the last command to be the end of the statement
-        self.commands[-1].end_of_statement = True
         for command in self.commands:
             # need to use deepcopy as the values can be appended to multiple
             # parents and in lxml that removes it from the original parent,
@@ -520,6 +518,11 @@ class Pipeline(ComplexObject):
                 statements.append(current_statement)
                 current_statement = []
 
+        # the last command is always the end of the statement
+        if current_statement:
+            current_statement[-1].end_of_statement = True
+            statements.append(current_statement)
+
         return statements
 
 
-- 
2.43.0


From d74679f7cee8210d11af3c884931624055824f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:21 +0000
Subject: [PATCH 40/64] fix: decode each error of CLIXML output on its own

---
 src/pypsrp/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 273c56e..8682b1f 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -314,9 +314,9 @@ class Client(object):
 
             errors: typing.List[str] = []
             for error in element.findall("{%s}S[@S='Error']" % namespace):
-                errors.append(error.text or "")
+                errors.append(Serializer()._deserialize_string(error.text or ""))
 
-            output = Serializer()._deserialize_string("".join(errors))
+            output = "".join(errors)
 
         return output
 
-- 
2.43.0


From 786b3f11694eb6738f1b39616ffccf8d67d07088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:32 +0000
Subject: [PATCH 41/64] fix: write all the parts of a fetched file

---
 src/pypsrp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 8682b1f..e496dc2 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -272,7 +272,7 @@ class Client(object):
 
             temp_file, path = tempfile.mkstemp()
             try:
-                file_bytes = base64.b64decode(powershell.output[0])
+                file_bytes = b"".join(base64.b64decode(o) for o in powershell.output[:-1])
                 os.write(temp_file, file_bytes)
 
                 sha1 = hashlib.sha1()
-- 
2.43.0


From 06c6d3a7476fa0c12835a0d95958bf00795f4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:19 +0000
Subject: [PATCH 42/64] fix: do not close a pipeline on the server again when
 it is already closed

---
 src/pypsrp/powershell.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 5866542..5e57a86 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1158,9 +1158,13 @@ class PowerShell(object):
             return
         elif self.state not in valid_states:
             raise InvalidPipelineStateError(self.state, valid_states, "close a PowerShell pipeline")
+        elif self._command_id is None:
+            # already closed, the server no longer knows the command
+            return
 
-        self.runspace_pool.shell.signal(SignalCode.TERMINATE, command_id=self._command_id or self.id)
+        self.runspace_pool.shell.signal(SignalCode.TERMINATE, command_id=self._command_id)
         self.runspace_pool.pipelines.pop(self.id, None)
+        self._command_id = None
 
     def connect(self):
         """
@@ -1559,8 +1563,9 @@ class PowerShell(object):
         first_frag = base64.b64encode(fragments.pop(0)).decode("utf-8")
         resp = self.runspace_pool.shell.command("", arguments=[first_frag], command_id=self.id)
         cmd_id = resp.find("rsp:CommandResponse/rsp:CommandId", NAMESPACES)
-        if cmd_id is not None:
-            self._command_id = cmd_id.text or ""
+        self._command_id = self.id
+        if cmd_id is not None and cmd_id.text:
+            self._command_id = cmd_id.text
         self.state = PSInvocationState.RUNNING
 
         # send the remaining fragments with the Send message
-- 
2.43.0


From 72e9e0d5d57949f68250cb20e79aaba88a6031f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:30 +0000
Subject: [PATCH 43/64] fix: allow nested pipelines again once a connected
 pipeline is invoked by this client

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 5e57a86..7c02856 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1281,6 +1281,7 @@ class PowerShell(object):
             self.is_nested,
         )
         self.had_errors = False
+        self._from_disconnect = False
         self._invoke(create_pipeline)
 
         # finally send the input if any was specified
-- 
2.43.0


From e5840a8775442316c4404338b7cf67f059cf46ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:36 +0000
Subject: [PATCH 44/64] fix: connect to a pipeline by the command id the server
 gave it

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 7c02856..8da2c42 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1188,7 +1188,7 @@ class PowerShell(object):
             )
         rsp = NAMESPACES["rsp"]
 
-        connect = ET.Element("{%s}Connect" % rsp, CommandId=self.id)
+        connect = ET.Element("{%s}Connect" % rsp, CommandId=self._command_id or self.id)
 
         self.runspace_pool.connection.connect(
             self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
-- 
2.43.0


From 0de55bd93b1d030091af9a83cd8d8176bce478bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:29 +0000
Subject: [PATCH 45/64] fix: let a pipeline override the apartment state of its
 pool with STA

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 8da2c42..26521a0 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1262,7 +1262,8 @@ class PowerShell(object):
 
         # only an empty list holds no input, other false values are an input
         no_input = input is None or (isinstance(input, list) and len(input) == 0)
-        apartment_state = apartment_state or self.runspace_pool.apartment_state
+        if apartment_state is None:
+            apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
         pipeline = Pipeline(
-- 
2.43.0


From af92067f76f76a28423939f1802ee71d19b96ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:39 +0000
Subject: [PATCH 46/64] fix: give a serialized element ids of the document it
 is added to

---
 src/pypsrp/serializer.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index a79d400..f83c4c9 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -8,7 +8,7 @@ import re
 import typing
 import uuid
 import xml.etree.ElementTree as ET
-from copy import copy
+from copy import copy, deepcopy
 from queue import Empty, Queue
 
 from cryptography.hazmat.primitives.padding import PKCS7
@@ -92,6 +92,9 @@ class Serializer(object):
             self._clear()
 
         if isinstance(value, ET.Element):
+            if not clear:
+                value = self._import_element(value)
+
             if metadata is not None and metadata.name is not None:
                 value.attrib["N"] = metadata.name
 
@@ -822,6 +825,31 @@ class Serializer(object):
         self.obj_id += 1
         return ref_id
 
+    def _import_element(
+        self,
+        element: ET.Element,
+    ) -> ET.Element:
+        # The element was serialized as a document of its own and the caller can
+        # use it more than once, return a copy with ids of the current document.
+        element = deepcopy(element)
+        obj_ids: typing.Dict[str, str] = {}
+        tn_ids: typing.Dict[str, str] = {}
+        for e in element.iter():
+            ref_id = e.attrib.get("RefId")
+            if ref_id is None:
+                continue
+            elif e.tag == "Obj":
+                e.attrib["RefId"] = obj_ids[ref_id] = self._get_obj_id()
+            elif e.tag == "Ref":
+                e.attrib["RefId"] = obj_ids.get(ref_id, ref_id)
+            elif e.tag == "TN":
+                e.attrib["RefId"] = tn_ids[ref_id] = str(self.tn_id)
+                self.tn_id += 1
+            elif e.tag == "TNRef":
+                e.attrib["RefId"] = tn_ids.get(ref_id, ref_id)
+
+        return element
+
     def _get_types_from_obj(
         self,
         element: ET.Element,
-- 
2.43.0


From c9118456b214b5c48988407213561fd10758cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:48 +0000
Subject: [PATCH 47/64] fix: send queues as arguments of a pipeline

---
 src/pypsrp/complex_objects.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 8b2b7bd..1466e51 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -2,7 +2,7 @@
 # MIT License (see LICENSE or https://opensource.org/licenses/MIT)
 
 import typing
-from copy import deepcopy
+from copy import copy
 
 from pypsrp._utils import to_string, version_equal_or_newer
 
@@ -510,10 +510,9 @@ class Pipeline(ComplexObject):
         current_statement = []
 
         for command in self.commands:
-            # need to use deepcopy as the values can be appended to multiple
-            # parents and in lxml that removes it from the original parent,
-            # whereas this will create a copy of the statement for each parent
-            current_statement.append(deepcopy(command))
+            # a shallow copy is enough to not set the end of the statement on
+            # the caller's command, a deep copy fails for a Queue as a value
+            current_statement.append(copy(command))
             if command.end_of_statement:
                 statements.append(current_statement)
                 current_statement = []
-- 
2.43.0


From 008f33c315081b49891f903a805a3f753f962e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:26 +0000
Subject: [PATCH 48/64] fix: serialize arrays with an empty dimension

---
 src/pypsrp/complex_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 1466e51..c5b7303 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1522,7 +1522,8 @@ class Array(ComplexObject):
         while True:
             if isinstance(current_entry, list):
                 count.append(len(current_entry))
-                current_entry = current_entry[0]
+                # an empty dimension has no entries to look into
+                current_entry = current_entry[0] if current_entry else None
             else:
                 break
 
-- 
2.43.0


From 9b41ffe13f7b39bf4013a256708b4db2c6de4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:46:18 +0000
Subject: [PATCH 49/64] fix: write the whole fetched file or fail

---
 src/pypsrp/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index e496dc2..e3f437f 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -272,8 +272,9 @@ class Client(object):
 
             temp_file, path = tempfile.mkstemp()
             try:
-                file_bytes = b"".join(base64.b64decode(o) for o in powershell.output[:-1])
-                os.write(temp_file, file_bytes)
+                with os.fdopen(temp_file, "wb") as dest_file:
+                    file_bytes = b"".join(base64.b64decode(o) for o in powershell.output[:-1])
+                    dest_file.write(file_bytes)
 
                 sha1 = hashlib.sha1()
                 sha1.update(file_bytes)
@@ -287,7 +288,6 @@ class Client(object):
                     )
                 shutil.copy(path, dest)
             finally:
-                os.close(temp_file)
                 os.remove(path)
 
     def close(self) -> None:
-- 
2.43.0


From 0425458bc7ab8ea38d322508a5365810f472ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:44 +0000
Subject: [PATCH 50/64] fix: close the pool of a context that cannot be opened

---
 src/pypsrp/powershell.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 26521a0..d074bf1 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -278,7 +278,16 @@ class RunspacePool(object):
         self._max_runspaces = max_runspaces
 
     def __enter__(self) -> "RunspacePool":
-        self.open()
+        try:
+            self.open()
+        except Exception:
+            # __exit__ is not called when opening fails part way, make sure the shell on the server is not left behind
+            if self.state == RunspacePoolState.NEGOTIATION_SENT:
+                try:
+                    self.close()
+                except Exception as e:
+                    log.warning("Failed to close the Runspace Pool that could not be opened: %s", e)
+            raise
         return self
 
     def __exit__(
-- 
2.43.0


From 53fa9a397c5e653700f66a8d9514f7a82bd63353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:44 +0000
Subject: [PATCH 51/64] fix: escape type names like any other string

---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index f83c4c9..22299d0 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -698,7 +698,7 @@ class Serializer(object):
         for obj_property in element:
             if obj_property.tag == "TN":
                 for obj_type in obj_property:
-                    obj.types.append(obj_type.text)
+                    obj.types.append(self._deserialize_string(obj_type.text))
                 self.tn[obj_property.attrib["RefId"]] = obj.types
             elif obj_property.tag == "TNRef":
                 obj.types = self.tn[obj_property.attrib["RefId"]]
@@ -854,7 +854,7 @@ class Serializer(object):
         self,
         element: ET.Element,
     ) -> typing.List[str]:
-        obj_types = [e.text or "" for e in element.findall("TN/T")]
+        obj_types = [self._deserialize_string(e.text) for e in element.findall("TN/T")]
 
         if len(obj_types) > 0:
             ref_id = element.find("TN").attrib["RefId"]  # type: ignore[union-attr] # Mandated by the spec
@@ -881,7 +881,7 @@ class Serializer(object):
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-                ET.SubElement(tn, "T").text = type_name
+                ET.SubElement(tn, "T").text = self._serialize_string(type_name)
         else:
             ET.SubElement(parent, "TNRef", RefId=str(ref_id))
 
-- 
2.43.0


From 4cb99f33c1854db428d9b342fe1c790c32658521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:02 +0000
Subject: [PATCH 52/64] fix: resolve references to the collection that holds
 them

---
 src/pypsrp/serializer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 22299d0..c38589d 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -728,7 +728,10 @@ class Serializer(object):
     ) -> typing.List:
         value_meta = getattr(metadata, "list_value_meta", None)
 
-        list_value = list(self._deserialize_list_values(element, "LST", value_meta=value_meta))
+        # an entry can refer to the list it is in
+        list_value: typing.List = []
+        self.obj[element.attrib.get("RefId", "")] = list_value
+        list_value.extend(self._deserialize_list_values(element, "LST", value_meta=value_meta))
 
         return list_value
 
@@ -737,6 +740,7 @@ class Serializer(object):
         element: ET.Element,
     ) -> Queue:
         queue: Queue = Queue()
+        self.obj[element.attrib.get("RefId", "")] = queue
 
         for entry in self._deserialize_list_values(element, "QUE"):
             queue.put(entry)
@@ -748,7 +752,9 @@ class Serializer(object):
         element: ET.Element,
     ) -> typing.List:
         # no native Stack object in Python so just use a list
-        stack = list(self._deserialize_list_values(element, "STK"))
+        stack: typing.List = []
+        self.obj[element.attrib.get("RefId", "")] = stack
+        stack.extend(self._deserialize_list_values(element, "STK"))
 
         return stack
 
@@ -770,7 +776,9 @@ class Serializer(object):
         self,
         element: ET.Element,
     ) -> typing.Dict:
-        dictionary = {}
+        dictionary: typing.Dict = {}
+        self.obj[element.attrib.get("RefId", "")] = dictionary
+
         entries = element.findall("DCT/En")
         for entry in entries:
             key = entry.find("*[@N='Key']")
-- 
2.43.0


From 83770c97dbf7665adbaecf69b09a1818a45ac3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:41 +0000
Subject: [PATCH 53/64] fix: keep the IETF language tag of a culture

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index c5b7303..e752b65 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1621,7 +1621,7 @@ class CultureInfo(ComplexObject):
         self.lcid = kwargs.get("lcid")
         self.name = kwargs.get("name")
         self.display_name = kwargs.get("display_name")
-        self.ieft_language_tag = kwargs.get("ietf_language_tag")
+        self.ietf_language_tag = kwargs.get("ietf_language_tag")
         self.three_letter_iso_name = kwargs.get("three_letter_iso_name")
         self.three_letter_windows_name = kwargs.get("three_letter_windows_name")
         self.two_letter_iso_language_name = kwargs.get("two_letter_iso_language_name")
-- 
2.43.0


From 5f6007bb140bd4482e7f9b783bb04522b09faf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:48 +0000
Subject: [PATCH 54/64] fix: a pool whose server does not answer in time is not
 alive

---
 src/pypsrp/powershell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index d074bf1..f8a9365 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -734,7 +734,12 @@ class RunspacePool(object):
             else:
                 raise
 
-        except (_pool_manager.NewConnectionDisabled, TimeoutError, requests.exceptions.ConnectionError):
+        except (
+            _pool_manager.NewConnectionDisabled,
+            TimeoutError,
+            requests.exceptions.ConnectionError,
+            requests.exceptions.Timeout,
+        ):
             # If a timeout or connection error occurs, treat the pool as closed.
             is_closed = True
 
-- 
2.43.0


From 2668409548fec2eef992c2bc9144022f0f3b9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:38 +0000
Subject: [PATCH 55/64] fix: a pool behind a proxy is not alive once its
 connection is gone

---
 src/pypsrp/_pool_manager.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 81c7516..cd3971b 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -116,6 +116,23 @@ def _create_connection_pool(pool):
     pool.ConnectionCls = _wrap(pool.ConnectionCls, after=_create_new_connection_with_failure)
 
 
+def _wrap_pool_manager(manager: t.Any) -> None:
+    # pool_classes_by_scheme stores the urllib3 pool types used when creating
+    # the connection pool for http/https. We wrap the __init__ method so we can
+    # inject our custom ConnectionCls that wraps the connect method when
+    # created.
+    # Copy the dict so we only mutate this manager's instance, not the
+    # module-level dict shared by all urllib3 PoolManager instances.
+    if getattr(manager, "_pypsrp_wrapped", False):
+        return
+
+    pool_classes = dict(manager.pool_classes_by_scheme)
+    for scheme, pool_cls in list(pool_classes.items()):
+        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
+    manager.pool_classes_by_scheme = pool_classes
+    manager._pypsrp_wrapped = True
+
+
 def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does not have typing stubs for urllib3
     *,
     max_retries: Retry,
@@ -131,15 +148,13 @@ def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does
     else:
         adapter = requests.adapters.HTTPAdapter(max_retries=max_retries)
 
-    # pool_classes_by_scheme stores the urllib3 pool types used when creating
-    # the connection pool for http/https. We wrap the __init__ method so we can
-    # inject our custom ConnectionCls that wraps the connect method when
-    # created.
-    # Copy the dict so we only mutate this adapter's instance, not the
-    # module-level dict shared by all urllib3 PoolManager instances.
-    pool_classes = dict(adapter.poolmanager.pool_classes_by_scheme)
-    for scheme, pool_cls in list(pool_classes.items()):
-        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
-    adapter.poolmanager.pool_classes_by_scheme = pool_classes
+    _wrap_pool_manager(adapter.poolmanager)
+
+    # Requests sent through a proxy use a separate pool manager that the
+    # adapter creates and caches the first time it sees the proxy.
+    adapter.proxy_manager_for = _wrap(  # type: ignore[method-assign] # We want to see each manager it creates
+        adapter.proxy_manager_for,
+        after=_wrap_pool_manager,
+    )
 
     return adapter
-- 
2.43.0


From fc39e9bbd8c7385e63ebca3455705cd4fcf6dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:17:00 +0000
Subject: [PATCH 56/64] fix: unlock the client key of a connection through a
 proxy

---
 src/pypsrp/_pool_manager.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index cd3971b..f46d040 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -76,6 +76,17 @@ class HTTPSAdapterWithKeyPassword(requests.adapters.HTTPAdapter):
             **pool_kwargs,
         )
 
+    def proxy_manager_for(
+        self,
+        proxy,
+        **proxy_kwargs,
+    ):
+        return super().proxy_manager_for(
+            proxy,
+            key_password=self.__key_password,
+            **proxy_kwargs,
+        )
+
 
 def _wrap(
     func: t.Callable[..., T],
-- 
2.43.0


From 9103a0c6a421b01879c8971b1f30ea63b6ada58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:37:55 +0000
Subject: [PATCH 57/64] fix: objects that were read can be written again

---
 src/pypsrp/serializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index c38589d..b11acf8 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -677,7 +677,9 @@ class Serializer(object):
                         raise SerializationError(err_msg)
                     val = None
                 elif val is not None:
-                    val = self.deserialize(val, property_meta, clear=False)
+                    # the tag found is not set on the metadata of the object, it
+                    # is used again when the object is serialized
+                    val = self.deserialize(val, copy(property_meta), clear=False)
 
                 setattr(obj, attr, val)
 
@@ -726,7 +728,7 @@ class Serializer(object):
         element: ET.Element,
         metadata: typing.Optional[ObjectMeta] = None,
     ) -> typing.List:
-        value_meta = getattr(metadata, "list_value_meta", None)
+        value_meta = copy(getattr(metadata, "list_value_meta", None))
 
         # an entry can refer to the list it is in
         list_value: typing.List = []
-- 
2.43.0


From 540b60dc3bd82aefcfeacad8de3da8bd88c3bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:48 +0000
Subject: [PATCH 58/64] fix: read arrays with empty dimensions, write arrays
 just read

---
 src/pypsrp/complex_objects.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index e752b65..d544269 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1470,7 +1470,7 @@ class Array(ComplexObject):
     def mae(self):
         # elements of the array are flattened into a list and ordered by first
         # listing the deepest elements
-        mae = self._get_list_entries(self._array)
+        mae = self._get_list_entries(self.array)
         return mae
 
     @mae.setter
@@ -1487,21 +1487,17 @@ class Array(ComplexObject):
         self._mal = value
 
     def _build_array(self, mae, mal):
-        values = []
+        # the entries are split by the deepest dimension first, a dimension can
+        # be empty
+        values = list(mae)
 
-        length = mal.pop(-1)
-        while True:
-            entry = []
-            for i in range(0, length):
-                entry.append(mae.pop(0))
-            values.append(entry)
-            if len(mae) == 0:
-                break
+        for i in range(len(mal) - 1, 0, -1):
+            length = mal[i]
+            count = 1
+            for outer in mal[:i]:
+                count *= outer
 
-        if len(mal) == 0:
-            values = values[0]
-        elif len(mal) > 1:
-            values = self._build_array(values, mal)
+            values = [values[j * length : (j + 1) * length] for j in range(count)]
 
         return values
 
-- 
2.43.0


From 87f5a90e4215808142ef2ae91af254bf9850b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:58 +0000
Subject: [PATCH 59/64] fix: name of the GetRunspace host method

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index d544269..51619a1 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1125,7 +1125,7 @@ class HostMethodIdentifier(Enum):
             52: "PushRunspace",
             53: "PopRunspace",
             54: "GetIsRunspacePushed",
-            55: "GetRunspce",
+            55: "GetRunspace",
             56: "PromptForChoiceMultipleSelection",
         }
         super(HostMethodIdentifier, self).__init__(
-- 
2.43.0


From e23dcd7fa7c221543ba591e1bcee1b38f6e5e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:10 +0000
Subject: [PATCH 60/64] fix: resolve type names defined in members that are
 read later or not at all

---
 src/pypsrp/serializer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index b11acf8..6e77d00 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -190,6 +190,12 @@ class Serializer(object):
             xml_string = ET.tostring(element, encoding="utf-8", method="xml")
             element_string = to_string(xml_string)
 
+        if clear:
+            # the members of an object are not always read in the order they were
+            # written, and some are not read at all
+            for type_names in element.iter("TN"):
+                self.tn[type_names.attrib["RefId"]] = [self._deserialize_string(t.text) for t in type_names.findall("T")]
+
         metadata = metadata or ObjectMeta()
         if metadata.tag == "*":
             metadata.tag = element.tag
-- 
2.43.0


From 4524e181bc91dbcabc0210756bcc62b4475e4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:54 +0000
Subject: [PATCH 61/64] fix: raise the error of a failed command metadata query

---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f8a9365..553b8aa 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -468,6 +468,10 @@ class RunspacePool(object):
         ps = PowerShell(self)
         ps._invoke(get_msg)
         output = ps.end_invoke()
+        if ps.state != PSInvocationState.COMPLETED:
+            raise InvalidPSRPOperation(
+                "Failed to get the command metadata: %s" % ", ".join(str(e) for e in ps.streams.error)
+            )
 
         # first output obj is the MetadataCount obj that tells us how many
         # CommandMetadata objects there are
-- 
2.43.0


From 23a534c10ddbe1cb91d36b13cba5dd9da9dfb2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:01:19 +0000
Subject: [PATCH 62/64] fix: name the keys and values of dictionaries whose
 metadata is declared

---
 src/pypsrp/serializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 6e77d00..3b482ee 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -578,6 +578,7 @@ class Serializer(object):
             en = ET.SubElement(dct, "En")
             key_meta = copy(metadata.dict_key_meta)
             value_meta = copy(metadata.dict_value_meta)
+            key_meta.name, value_meta.name = "Key", "Value"
             self.serialize(key, key_meta, parent=en, clear=False)
             self.serialize(value, value_meta, parent=en, clear=False)
 
-- 
2.43.0


From b1d1dd88824eff36a3c3484dbe13511bca562ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:01:31 +0000
Subject: [PATCH 63/64] fix: give InformationalRecord its type name and keep
 the invocation flag it is made with

---
 src/pypsrp/complex_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 51619a1..a5b4604 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -943,7 +943,7 @@ class InformationalRecord(ComplexObject):
         https://msdn.microsoft.com/en-us/library/dd305072.aspx
         """
         super(InformationalRecord, self).__init__()
-        self._types = ["System.Management.Automation.InformationRecord", "System.Object"]
+        self._types = ["System.Management.Automation.InformationalRecord", "System.Object"]
         self._extended_properties = (
             ("message", ObjectMeta("S", name="InformationalRecord_Message")),
             ("invocation", ObjectMeta("B", name="InformationalRecord_SerializeInvocationInfo")),
@@ -1057,7 +1057,7 @@ class InformationalRecord(ComplexObject):
         self.command_definition = kwargs.get("command_definition")
         self.command_name = kwargs.get("command_name")
         self.command_visibility = kwargs.get("command_visibility")
-        self.invocation = False
+        self.invocation = kwargs.get("invocation") or False
 
 
 class HostMethodIdentifier(Enum):
-- 
2.43.0


From 928e7348bfdff98f4db13036c17c0b1d36a05c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 64/64] fix: process the remaining messages of a response
 before the key exchange the server asked for

---
 src/pypsrp/powershell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 553b8aa..72957e3 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -796,7 +796,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys(),
+            MessageType.PUBLIC_KEY_REQUEST: None,  # the exchange is done once all messages have been processed
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
@@ -837,6 +837,10 @@ class RunspacePool(object):
             else:
                 return_values.append((message.message_type, message))
 
+        # the exchange receives further messages, these must not be processed before the remaining ones of this response
+        if any(message.message_type == MessageType.PUBLIC_KEY_REQUEST for message in messages):
+            self.exchange_keys()
+
         return return_values
 
     def _process_host_call(
-- 
2.43.0

