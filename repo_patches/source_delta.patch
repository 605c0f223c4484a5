From 3defd04c6e490f2062aba0b1d9636d2d24d41412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 01/38] fix: decode text from HDF5 files independent of locale,
 and when not valid UTF-8

---
 punx/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 319fd0a..57014f2 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -30,7 +30,6 @@ import h5py
 import logging
 import os
 import numpy
-import sys
 
 
 def decode_byte_string(value):
@@ -41,14 +40,24 @@ def decode_byte_string(value):
     objects pass unchanged.
 
     Zero-dimenstional arrays are replaced with None.
+
+    HDF5 strings are ASCII or UTF-8.  Any bytes that are not UTF-8 are shown
+    as backslash escapes.
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
-            return value.astype('U').tolist()
+            return decode_byte_string(value.tolist())
         else:
             return None
+    elif isinstance(value, list):
+        return [decode_byte_string(v) for v in value]
     elif isinstance(value, (bytes, numpy.bytes_)):
-        return value.decode(sys.stdout.encoding or "utf8")
+        return value.decode("utf8", errors="backslashreplace")
+    elif isinstance(value, str):
+        # h5py represents undecodable bytes with surrogate escapes
+        return value.encode("utf8", "surrogateescape").decode(
+            "utf8", errors="backslashreplace"
+        )
     else:
         return value
 
-- 
2.43.0


From 89cc05c3f6297f71409c4c389dbfd7f08298dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 02/38] fix: catalog every item by its path in the file, skip
 broken and cyclic links

---
 punx/utils.py    | 60 +++++++++++++++++++++++++++++++++++++++---------
 punx/validate.py | 57 ++++++++++++++++++++++++++++++---------------
 2 files changed, 88 insertions(+), 29 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 57014f2..ca2c662 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -13,6 +13,10 @@ utility routines
 .. autosummary::
 
    ~decode_byte_string
+   ~get_attribute
+   ~get_child
+   ~has_child
+   ~sorted_attributes
    ~isHdf5FileObject
    ~isHdf5Group
    ~isHdf5Dataset
@@ -62,6 +66,43 @@ def decode_byte_string(value):
         return value
 
 
+def get_attribute(obj, name, default=None):
+    """
+    return value of HDF5 attribute, default if it does not exist or is not readable
+
+    Not readable: some HDF5 datatypes have no equivalent in Python.
+    """
+    try:
+        return obj.attrs.get(name, default)
+    except Exception:
+        return default
+
+
+def get_child(group, name):
+    """
+    return named HDF5 object in HDF5 group, None if it is not available
+
+    Not available: such as a soft or external link with no target.
+    """
+    try:
+        return group[name]
+    except Exception:
+        return None
+
+
+def has_child(group, name):
+    """Is `name` a name of something in this HDF5 group?"""
+    return isinstance(name, str) and len(name) > 0 and name in group
+
+
+def sorted_attributes(obj):
+    """return list of (name, value) for all attributes of HDF5 object"""
+    return sorted(
+        [(decode_byte_string(k), get_attribute(obj, k)) for k in obj.attrs],
+        key=lambda pair: pair[0],
+    )
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
@@ -126,11 +167,8 @@ def isNeXusFile(filename):
     with h5py.File(filename, "r") as root:
         if isHdf5FileObject(root):
             for item in root:
-                try:
-                    if isNeXusGroup(root[item], "NXentry"):
-                        return True
-                except KeyError:
-                    pass
+                if isNeXusGroup(get_child(root, item), "NXentry"):
+                    return True
     return False
 
 
@@ -138,11 +176,11 @@ def isNeXusGroup(obj, NXtype):
     """Is `obj` a NeXus group?"""
     nxclass = None
     if isHdf5Group(obj):
-        nxclass = obj.attrs.get("NX_class", None)
-        if isinstance(nxclass, numpy.ndarray):
-            nxclass = nxclass[0]
+        nxclass = get_attribute(obj, "NX_class", None)
+        if isinstance(nxclass, numpy.ndarray) and nxclass.size > 0:
+            nxclass = nxclass.flat[0]
         nxclass = decode_byte_string(nxclass)
-    return nxclass == str(NXtype)
+    return isinstance(nxclass, str) and nxclass == str(NXtype)
 
 
 def isNeXusDataset(obj):
@@ -152,8 +190,8 @@ def isNeXusDataset(obj):
 
 def isNeXusLink(obj):
     """Is `obj` linked to another NeXus item?"""
-    target = decode_byte_string(obj.attrs.get("target", ""))
-    return len(target) > 0 and target != obj.name
+    target = decode_byte_string(get_attribute(obj, "target", ""))
+    return isinstance(target, str) and len(target) > 0 and target != obj.name
 
 
 def setup_logger(log_name, level=None):
diff --git a/punx/validate.py b/punx/validate.py
index a9de31f..0d36d75 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -267,7 +267,7 @@ class Data_File_Validator(object):
         """
         self._group_address_catalog_(None, self.h5)
 
-    def _group_address_catalog_(self, parent, group):
+    def _group_address_catalog_(self, parent, group, link_name=None):
         """
         catalog this group's address and all its contents
         """
@@ -278,24 +278,32 @@ class Data_File_Validator(object):
             self.classpaths[v.classpath].append(v)
             logger.log(INFORMATIVE, "NeXus classpath: " + v.classpath)
 
-        def get_subject(parent, o):
-            v = ValidationItem(parent, o)
+        def get_subject(parent, o, link_name=None):
+            v = ValidationItem(parent, o, link_name=link_name)
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
-            for k, a in sorted(o.attrs.items()):
+            for k, a in utils.sorted_attributes(o):
                 av = ValidationItem(v, a, attribute_name=k)
                 self.addresses[av.h5_address] = av
                 addClasspath(av)
             return v
 
-        obj = get_subject(parent, group)
-        parent = self.classpaths[obj.classpath][-1]
+        obj = get_subject(parent, group, link_name)
         for item in group:
-            if utils.isHdf5Group(group[item]):
-                self._group_address_catalog_(parent, group[item])
+            name = utils.decode_byte_string(item)
+            child = utils.get_child(group, item)
+            if child is None:  # broken link: nothing to validate
+                addr = obj.h5_address.rstrip(SLASH) + SLASH + name
+                c = "target of this link not found"
+                f = finding.Finding(addr, "link target", finding.WARN, c)
+                self.validations.append(f)
+            elif utils.isHdf5Group(child) or utils.isHdf5FileObject(child):
+                if obj.is_inside(child):
+                    continue  # link to a parent group: already in the catalog
+                self._group_address_catalog_(obj, child, name)
             else:
-                get_subject(parent, group[item])
+                get_subject(obj, child, name)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
@@ -394,17 +402,21 @@ class ValidationItem(object):
 
     """HDF5 data file object for validation"""
 
-    def __init__(self, parent, obj, attribute_name=None):
+    def __init__(self, parent, obj, attribute_name=None, link_name=None):
         assert isinstance(parent, (ValidationItem, type(None)))
         self.parent = parent
         self.validations = {}  # validation findings go here
         self.h5_object = obj
-        if hasattr(obj, "name"):
-            self.h5_address = obj.name
-            if obj.name == SLASH:
+        self.is_attribute = link_name is None and not hasattr(obj, "name")
+        if not self.is_attribute:
+            # The address is how this item is found in *this* file.
+            # The object may have other names (such as: external link).
+            if parent is None:
                 self.name = SLASH
+                self.h5_address = SLASH
             else:
-                self.name = obj.name.split(SLASH)[-1]
+                self.name = link_name or obj.name.split(SLASH)[-1]
+                self.h5_address = parent.h5_address.rstrip(SLASH) + SLASH + self.name
             self.classpath = self.determine_NeXus_classpath()
         else:
             self.name = attribute_name
@@ -427,6 +439,15 @@ class ValidationItem(object):
         except Exception:
             return object.__str__(self, *args, **kwargs)
 
+    def is_inside(self, group):
+        """Is *group* this item or any of its parents?"""
+        item = self
+        while item is not None:
+            if item.h5_object == group:
+                return True
+            item = item.parent
+        return False
+
     def identify_object_type(self, *args, **kwargs):
         import h5py._hl
 
@@ -468,21 +489,21 @@ class ValidationItem(object):
         The HDF5 address of the plottable data is: ``/entry/data/data``,
         its NeXus class path is: ``/NXentry/NXdata/data``
         """
-        if self.name == SLASH:
+        if self.parent is None:
             return ""
         else:
             h5_obj = self.h5_object
 
             classpath = str(self.parent.classpath)
             if classpath == CLASSPATH_OF_NON_NEXUS_CONTENT:
-                logger.log(INFORMATIVE, "%s is not NeXus content", h5_obj.name)
+                logger.log(INFORMATIVE, "%s is not NeXus content", self.h5_address)
                 return CLASSPATH_OF_NON_NEXUS_CONTENT
 
             if not classpath.endswith(SLASH):
 
-                if utils.isHdf5Group(h5_obj):
+                if isinstance(h5_obj, h5py.Group):
                     nx_class = utils.decode_byte_string(
-                        h5_obj.attrs.get("NX_class"))
+                        utils.get_attribute(h5_obj, "NX_class"))
 
                     if isinstance(nx_class, str) and nx_class.startswith("NX"):
                         self.nx_class = nx_class  # only for groups
-- 
2.43.0


From d9ac18bc31a08feca4feadc7b04baaeb63c4da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 03/38] fix: item names judged whole, attributes recognized as
 such, @target & @NX_class of any type

---
 punx/validations/item_name.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 9d31d90..a81de83 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -33,11 +33,13 @@ def isNeXusLinkTarget(v_item):
     It is a "target" if its HDF5 address does not match the target value.
     It is a "source" if its HDF5 address matches the target attribute value.
     """
-    if "target" in v_item.h5_object.attrs:
+    target_name = utils.decode_byte_string(
+        utils.get_attribute(v_item.h5_object, "target")
+    )
+    if isinstance(target_name, str):
         source_name = utils.decode_byte_string(v_item.h5_address)
-        target_name = utils.decode_byte_string(v_item.h5_object.attrs["target"])
         return target_name != source_name
-    return False  # no @target attribute at all
+    return False  # no @target attribute (with an address) at all
 
 
 def verify(validator, v_item):
@@ -71,15 +73,18 @@ def verify(validator, v_item):
     if v_item.name in v_item.validations:
         return  # do not repeat this
 
-    if v_item.h5_address is not None and v_item.h5_address.endswith("@NX_class"):
+    if v_item.is_attribute and v_item.h5_address is None:
+        pass  # attribute of non-NeXus content
+
+    elif v_item.is_attribute and v_item.name == "NX_class":
         handle_NX_class(validator, v_item)
 
     # attribute
-    elif v_item.classpath.find("@") > -1 and isNeXusLinkTarget(v_item.parent):
+    elif v_item.is_attribute and isNeXusLinkTarget(v_item.parent):
         # Do not validate the attributes of linked items.
         # They will be validated with the source item.
         pass
-    elif v_item.classpath.find("@") > -1:
+    elif v_item.is_attribute:
         handle_any_attribute(validator, v_item)
 
     elif (
@@ -112,7 +117,9 @@ def handle_NX_class(validator, v_item):
         if k not in validator.regexp_cache:
             validator.regexp_cache[k] = re.compile("^" + p + "$")
         s = utils.decode_byte_string(v_item.h5_object)
-        m = validator.regexp_cache[k].match(s)
+        if not isinstance(s, str):
+            break
+        m = validator.regexp_cache[k].fullmatch(s)
         matches = m is not None and m.string == s
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
@@ -152,12 +159,14 @@ def getValidItemNamePatterns(validator, key=None):
 def validItemName_match_key(validator, text):
     """Return the validItemName key that matches text, or None"""
     patterns = getValidItemNamePatterns(validator)
+    s = utils.decode_byte_string(text)
+    if not isinstance(s, str):
+        return None
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
             validator.regexp_cache[k] = re.compile("^" + p + "$")
 
-        s = utils.decode_byte_string(text)
-        m = validator.regexp_cache[k].match(s)
+        m = validator.regexp_cache[k].fullmatch(s)
         matches = m is not None and m.string == s
         logger.debug("checking %s with %s: %s", s, k, str(matches))
         if matches:
@@ -175,6 +184,8 @@ def handle_groups_and_fields(validator, v_item):
         elif k is None:
             status = finding.ERROR
             k = "valid HDF5 item name, not valid with NeXus"
+            if "@" in v_item.name:
+                k = "no matching pattern found"
         elif k.startswith("strict"):
             status = finding.OK
         else:
-- 
2.43.0


From 6056d9e9dc943df8dab30ba552b0ff5764d66131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 04/38] fix: attribute values of any type and shape, '.'
 placeholder in @axes

---
 punx/validations/attribute.py | 40 +++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 9c809a8..4452f83 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -8,7 +8,7 @@
 # The full license is in the file LICENSE.txt, distributed with this software.
 # -----------------------------------------------------------------------------
 
-import numpy
+import h5py
 
 from .. import finding, utils
 from . import item_name
@@ -22,10 +22,12 @@ def verify(validator, v_item):
     """
     if v_item.h5_address is None:
         return
-    if v_item.h5_address.find("@") < 0:
+    if not v_item.is_attribute and v_item.name.find("@") < 0:
         return
 
-    handler = HANDLER_DICT.get(v_item.name) or generic_handler
+    handler = generic_handler
+    if v_item.is_attribute:
+        handler = HANDLER_DICT.get(v_item.name, handler)
     handler(validator, v_item)
 
 
@@ -59,11 +61,22 @@ def axes_handler(validator, v_item):
     """
     validate @axes
     """
+    if not isinstance(v_item.parent.h5_object, h5py.Group):
+        # @axes of a field is different: names separated by colons or commas
+        generic_handler(validator, v_item)
+        return
+
     axes_attr = utils.decode_byte_string(v_item.h5_object)
-    if not isinstance(axes_attr, (list, numpy.ndarray)):
+    if not isinstance(axes_attr, list):
         axes_attr = [axes_attr]  # ensure it is array
 
     for axis_name in axes_attr:
+        if axis_name == ".":
+            test_name = f"valid name @axes['{axis_name}']"
+            k = "placeholder: no axis for this dimension"
+            validator.record_finding(v_item, test_name, finding.OK, k)
+            continue
+
         # check each value of array that is a validItemName
         k = item_name.validItemName_match_key(validator, axis_name)
         test_name = f"valid name @axes['{axis_name}']"
@@ -79,8 +92,7 @@ def axes_handler(validator, v_item):
 
         # check axis_name names local field (in this group)
         test_name = f"axes['{axis_name}'] exists"
-        h5parent = v_item.parent.h5_object
-        if h5parent.get(axis_name) is not None:
+        if utils.has_child(v_item.parent.h5_object, axis_name):
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -95,9 +107,11 @@ def axes_handler(validator, v_item):
 def nxclass_handler(validator, v_item):
     """validate @NX_class"""
     nx_class = utils.decode_byte_string(v_item.h5_object)
-    nxdl = validator.manager.classes.get(nx_class)
+    nxdl = None
+    if isinstance(nx_class, str):
+        nxdl = validator.manager.classes.get(nx_class)
     if nxdl is None:
-        c = "not a recognized NXDL class: " + nx_class
+        c = "not a recognized NXDL class: " + str(nx_class)
         status = finding.ERROR
     elif isBaseClassNXDL(nxdl):
         c = "recognized NXDL base class: " + nx_class
@@ -121,7 +135,7 @@ def signal_handler(validator, v_item):
     signal = utils.decode_byte_string(v_item.h5_object)
     if utils.isNeXusDataset(v_item.parent.h5_object):
         if (
-            str(signal).isdigit() and int(signal) == 1
+            str(signal).isdecimal() and int(signal) == 1
         ):  # could error if signal is other text!
             status = finding.OK
             c = "found plottable data marker"
@@ -131,7 +145,7 @@ def signal_handler(validator, v_item):
         validator.record_finding(v_item, TEST_NAME, status, c)
     elif utils.isHdf5Group(v_item.parent.h5_object):
         k = item_name.validItemName_match_key(validator, signal)
-        test_name = "valid name @signal=" + signal
+        test_name = "valid name @signal=" + str(signal)
         if k is None:
             status = finding.ERROR
             k = "not a valid NeXus name"
@@ -142,10 +156,10 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = signal in v_item.parent.h5_object
+        test = utils.has_child(v_item.parent.h5_object, signal)
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
-        c += ": @signal=" + signal
+        c += ": @signal=" + str(signal)
         validator.record_finding(v_item, TEST_NAME, status, c)
     else:
         generic_handler(validator, v_item)
@@ -155,7 +169,7 @@ def target_handler(validator, v_item):
     """validate @target"""
     target = utils.decode_byte_string(v_item.h5_object)
 
-    if not target.startswith("/"):
+    if not isinstance(target, str) or not target.startswith("/"):
         status = finding.ERROR
         c = 'value be must absolute HDF5 address, start with "/"'
         validator.record_finding(v_item, TEST_NAME, status, c)
-- 
2.43.0


From ced24b897057a6316711c659b6d98974766a4be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 05/38] fix: default plot verdict does not depend on previous
 validations, nor on type of pointers

---
 punx/validations/default_plot.py | 39 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 3fc38a8..45f36e0 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -37,10 +37,12 @@ def verify(validator):
     if status is None:
         c = "no default plot described"
         data_group = validator.manager.classes["NXentry"].groups["data"]
-        if hasattr(data_group, "minOccurs"):
-            minOccurs = data_group.minOccurs
-        else:
-            minOccurs = 1
+        minOccurs = 1
+        for v_item in validator.addresses.values():
+            if getattr(v_item, "nx_class", None) == "NXentry":
+                # any NXentry is subject to what its NXDL requires
+                minOccurs = int(data_group.attributes.get("minOccurs", 0))
+                break
         if minOccurs > 0:
             status = finding.ERROR
         else:
@@ -62,23 +64,21 @@ def default_plot_v3(validator):
     # Assume the attribute values are tested elsewhere
     def build_h5_address(v_item, pointer):
         "create the HDF5 address"
-        if isinstance(v_item.h5_object, str):
-            parent = v_item.parent or v_item
-            addr = parent.h5_object.name
-        else:
-            addr = v_item.h5_object.name
+        addr = v_item.h5_address
         if not addr.endswith("/"):
             addr += "/"
-        addr += utils.decode_byte_string(pointer)
+        addr += str(utils.decode_byte_string(pointer))
         return addr
 
     def attribute_points_at_target(v_item, attribute_name, v_target):
         "test if attribute value actually points at target"
-        pointer = v_item.h5_object.attrs.get(attribute_name)
-        if pointer is None:
+        pointer = utils.decode_byte_string(
+            utils.get_attribute(v_item.h5_object, attribute_name)
+        )
+        if not utils.has_child(v_item.h5_object, pointer):
             return False
         addr = build_h5_address(v_item, pointer)
-        if addr not in v_item.h5_object:
+        if addr not in validator.addresses:
             return False
         return v_target == addr
 
@@ -90,11 +90,12 @@ def default_plot_v3(validator):
     niac2014_path = []
     for v_item in short_list:
         # check existence of @default attributes, as well
-        _root, entry, data = v_item.h5_address.split("@")[0].split("/")  # noqa
-        nxdata = validator.addresses["/" + entry + "/" + data]
-        nxentry = validator.addresses["/" + entry]
-        nxroot = validator.addresses["/"]
-        signal_h5_addr = build_h5_address(nxdata, nxdata.h5_object.attrs["signal"])
+        nxdata = v_item.parent
+        nxentry = nxdata.parent
+        nxroot = nxentry.parent if nxentry is not None else None
+        if not v_item.is_attribute or nxroot is None:
+            continue  # not @signal of a group, only looks like it
+        signal_h5_addr = build_h5_address(nxdata, v_item.h5_object)
         t1 = attribute_points_at_target(nxroot, "default", nxentry.h5_address)
         t2 = attribute_points_at_target(nxentry, "default", nxdata.h5_address)
         t3 = attribute_points_at_target(nxdata, "signal", signal_h5_addr)
@@ -136,7 +137,7 @@ def default_plot_v2(validator):
         if k.endswith("@signal"):
             for v_item in v:
                 if utils.isNeXusDataset(v_item.parent.h5_object):
-                    signal = str(v_item.h5_object)
+                    signal = str(utils.decode_byte_string(v_item.h5_object))
                     if signal == "1":
                         status = finding.OK
                         c = "found field with @signal=1: " + v_item.h5_address
-- 
2.43.0


From 5f1340f89cc64faf33fc0750c0dae4d4cc4347a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 06/38] fix: missing fields, empty values, and definitions
 without groups in application definition check

---
 punx/validations/application_definition.py | 41 ++++++++++++----------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 171c76d..702bde2 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -15,14 +15,24 @@ from .. import utils
 from ..validate import ValidationItem
 
 
+def first_value(h5_obj):
+    """
+    return first value of HDF5 dataset as text, None if there is no such value
+    """
+    if not utils.isHdf5Dataset(h5_obj):
+        return None
+    try:
+        value = numpy.asarray(h5_obj[()]).flat[0]
+    except Exception:  # no values or datatype not readable
+        return None
+    return utils.decode_byte_string(value)
+
+
 def verify(validator, v_item):
     """
     Verify items specified in application definition are present in HDF5 data file
     """
-    item = v_item.h5_object["definition"][()]
-    if isinstance(item, (list, tuple, numpy.ndarray)):
-        item = item[0]
-    ad_name = str(utils.decode_byte_string(item))
+    ad_name = str(first_value(utils.get_child(v_item.h5_object, "definition")))
     key = "NeXus application definition"
 
     ad = validator.manager.classes.get(ad_name)
@@ -46,29 +56,24 @@ def verify(validator, v_item):
     validator.record_finding(v_item, key, finding.TODO, c)
 
     # TODO: groups, attributes, links, type, ... in separate functions
-    ad_entry = list(ad.groups.values())[
-        0
-    ]  # only 1 at this level of the application definition (ad)
+    ad_entries = list(ad.groups.values())
+    if len(ad_entries) == 0:
+        return
+    ad_entry = ad_entries[0]  # only 1 at this level of the application definition (ad)
     for field, spec in ad_entry.fields.items():
 
         msg = "%s:%s" % (ad_name, field)
-        h5_obj = v_item.h5_object.get(field)
+        h5_obj = utils.get_child(v_item.h5_object, field)
         status = finding.TF_RESULT[h5_obj is not None]
         if h5_obj is None:
             msg += " not"
         msg += " found"
-        v_obj = ValidationItem(v_item, h5_obj)
+        v_obj = ValidationItem(v_item, h5_obj, link_name=field)
         validator.record_finding(v_obj, "NXDL field", status, msg)
 
         if len(spec.enumerations) > 0:
-            found = False
-            for enum in spec.enumerations:
-                obj = h5_obj[()]
-                if isinstance(obj, (list, tuple, numpy.ndarray)):
-                    obj = obj[0]
-                found = enum == utils.decode_byte_string(obj)
-                if found:
-                    break
+            value = first_value(h5_obj)
+            found = isinstance(value, str) and value in spec.enumerations
             msg = "%s:%s" % (ad_name, field)
             required = (
                 spec.xml_attributes["minOccurs"].default_value == 1
@@ -79,7 +84,7 @@ def verify(validator, v_item):
                 msg += " (optional)"
             status = finding.TF_RESULT[found]
             if found:
-                msg += " has expected value: " + enum
+                msg += " has expected value: " + value
             else:
                 msg += " does not have value: " + " | ".join(spec.enumerations)
             validator.record_finding(v_obj, "NXDL field enumerations", status, msg)
-- 
2.43.0


From f6572d7ad5305b85284b8b4f4c4c5ab6359fde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 07/38] fix: compare group with base class when attributes are
 not text and links are broken

---
 .../hdf5_group_items_in_base_class.py         | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index b98be6f..023672e 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = v in v_item.h5_object
+    found = utils.has_child(v_item.h5_object, v)
     if found:
         status = finding.OK
         c = "found"
@@ -32,7 +32,7 @@ def child_exists(validator, test_name, v, v_item, a_item):
     c += ": " + v_item.h5_address
     if not c.endswith("/"):
         c += "/"
-    c += v
+    c += str(v)
     validator.record_finding(a_item, test_name, status, c)
 
 
@@ -48,8 +48,7 @@ def verify_group_attributes(validator, v_item, base_class):
         Instance of :class:`~punx.nxdl_manager.NXDL__definition`
         (a class that represents one of the NXDL specifications)
     """
-    for k, v in sorted(v_item.h5_object.attrs.items()):
-        k = utils.decode_byte_string(k)
+    for k, v in utils.sorted_attributes(v_item.h5_object):
         v = utils.decode_byte_string(v)
         known = k in base_class.attributes
         status = finding.OK
@@ -67,13 +66,13 @@ def verify_group_attributes(validator, v_item, base_class):
         spec = base_class.attributes[k]
 
         if len(spec.enumerations) > 0:
-            match = v in spec.enumerations
+            match = isinstance(v, str) and v in spec.enumerations
             status = finding.TF_RESULT[match]
             if match:
                 c = "found"
             else:
                 c = "not found"
-            c += ": " + v
+            c += ": " + str(v)
             test_name = "attribute value enumeration"
             validator.record_finding(a_item, test_name, status, c)
             # TODO: ...
@@ -95,14 +94,14 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = v in v_item.manager.addresses
+            found = isinstance(v, str) and v in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
             else:
                 status = finding.ERROR
                 c = "not found"
-            c += ": " + v_item.h5_address + "/@target = " + v
+            c += ": " + v_item.h5_address + "/@target = " + str(v)
             validator.record_finding(a_item, test_name, status, c)
 
         elif k == "axes":
@@ -119,8 +118,13 @@ def verify_group_attributes(validator, v_item, base_class):
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
-        obj = v_item.h5_object[child_name]
-        v_sub_item = validator.addresses[obj.name]
+        child_name = utils.decode_byte_string(child_name)
+        v_sub_item = validator.addresses.get(
+            v_item.h5_address.rstrip("/") + "/" + child_name
+        )
+        if v_sub_item is None:
+            continue  # not in the catalog: such as a broken link
+        obj = v_sub_item.h5_object
         # TODO: need an algorithm to know if v_item is defined in base class
 
         if utils.isNeXusDataset(obj):
-- 
2.43.0


From f6588a2038d29f3d85ea9cf0783e5e6cb816988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 08/38] fix: tree view of any readable HDF5 file

---
 punx/h5tree.py | 101 ++++++++++++++++++++++++-------------------------
 1 file changed, 50 insertions(+), 51 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index e0c0b12..9d8ea94 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -87,7 +87,7 @@ class Hdf5TreeView(object):
             tree_string_list = self._renderGroup(f, txt, indentation="")
         return tree_string_list
 
-    def _renderGroup(self, obj, name, indentation="  ", md=None):
+    def _renderGroup(self, obj, name, indentation="  ", md=None, parents=[]):
         """return a [formatted_string] with the contents of the group
 
         Parameters
@@ -99,15 +99,21 @@ class Hdf5TreeView(object):
             If group was an ExternalLink, then keys ``filename`` and ``path``
             describe the external link point.  If not ExternalLink, the dictionary
             contents will not be used.
+        parents : list
+            The groups (instances of ``h5py.Group``) which contain this group.
         """
         s = []
-        nxclass = obj.attrs.get("NX_class", "")
-        if len(nxclass) > 0:
-            if isinstance(
-                nxclass, numpy.ndarray
-            ):  # attribute reported as DATATYPE SIMPLE
-                nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
-            nxclass = ":" + utils.decode_byte_string(nxclass)
+        parents = parents + [obj]
+        nxclass = utils.get_attribute(obj, "NX_class", "")
+        if isinstance(
+            nxclass, numpy.ndarray
+        ) and nxclass.size > 0:  # attribute reported as DATATYPE SIMPLE
+            nxclass = nxclass.flat[0]  # convert as if DATATYPE SCALAR
+        nxclass = utils.decode_byte_string(nxclass)
+        if isinstance(nxclass, str) and len(nxclass) > 0:
+            nxclass = ":" + nxclass
+        else:
+            nxclass = ""
         s += [indentation + name + nxclass]
         extra_attrs = {}
         if isinstance(md, h5py.ExternalLink):
@@ -117,26 +123,17 @@ class Hdf5TreeView(object):
 
         # show datasets and links next
         groups = []
-        for itemname in sorted(obj):
-            link_info = obj.get(itemname, getlink=True)
-            # prevent fails of obj.get(itemname, getclass=True)
-            # for external links if file is not available
-            if (
-                isinstance(link_info, h5py.ExternalLink)
-                and not os.path.exists(link_info.filename)
-            ):
-                classref = None
-                logger.debug(
-                    "FileNotFound: external file=%s  external HDF5 addr=%s",
-                    link_info.filename, link_info.path
-                )
-            elif isinstance(link_info, h5py.SoftLink):
-                classref = None
+        for link_name in sorted(obj, key=utils.decode_byte_string):
+            itemname = utils.decode_byte_string(link_name)
+            link_info = obj.get(link_name, getlink=True)
+            # prevent fails for external links if file or path is not available
+            if isinstance(link_info, h5py.SoftLink):
+                value = None
                 logger.debug("SoftLink: HDF5 addr=%s", link_info.path)
             else:
-                classref = obj.get(itemname, getclass=True)
+                value = utils.get_child(obj, link_name)
 
-            if classref is None:
+            if value is None:
                 if isinstance(link_info, h5py.SoftLink):
                     s += ["%s  %s: --> %s" % (indentation, itemname, link_info.path)]
                 else:
@@ -147,9 +144,10 @@ class Hdf5TreeView(object):
                             if v is not None:
                                 s += [self._renderSingleAttribute(indentation + "  ", nm, v)]
             else:
-                value = obj.get(itemname)
                 if utils.isNeXusLink(value):
                     s += self._renderLinkedObject(value, itemname, indentation + "  ")
+                elif value in parents:  # already shown (or will not finish)
+                    s += ["%s  %s: --> %s" % (indentation, itemname, value.name)]
                 elif utils.isHdf5Group(value) or utils.isHdf5FileObject(value):
                     groups.append((value, itemname, link_info))
                 elif utils.isHdf5Dataset(value):
@@ -160,17 +158,13 @@ class Hdf5TreeView(object):
                         # When "classref" is defined, then external data is available
                         s += [self._renderSingleAttribute(indentation + "  ", "file", link_info.filename)]
                         s += [self._renderSingleAttribute(indentation + "  ", "path", link_info.path)]
-                else:
-                    msg = (
-                        "unidentified %s: %s, %s",
-                        itemname,
-                        repr(classref),
-                        repr(link_info),
-                    )
-                    raise Exception(msg)
+                else:  # such as: a named (committed) datatype
+                    txt = "%s  %s:%s" % (indentation, itemname, type(value).__name__)
+                    s += [txt]
+                    s += self._renderAttributes(value, indentation + "  ")
 
         for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(value, itemname, indentation + "  ", md)
+            g = self._renderGroup(value, itemname, indentation + "  ", md, parents)
             s += g
 
         return s
@@ -178,7 +172,7 @@ class Hdf5TreeView(object):
     def _renderSingleAttribute(self, indentation, name, value):
         value = utils.decode_byte_string(value)
         # Wrap str and list of str in double quotes.
-        if isinstance(value, list) and isinstance(value[0], str):
+        if isinstance(value, list) and all(isinstance(v, str) for v in value):
             value = '["' + '", "'.join(value) + '"]'
         elif isinstance(value, str):
             value = f'"{value}"'
@@ -188,11 +182,12 @@ class Hdf5TreeView(object):
         """return a [formatted_string] with any attributes"""
         s = []
         if self.show_attributes:
-            for d in (obj.attrs, extra):
-                for name, value in d.items():
-                    s.append(
-                        self._renderSingleAttribute(indentation, name, value)
-                    )
+            attrs = [
+                (utils.decode_byte_string(k), utils.get_attribute(obj, k))
+                for k in obj.attrs
+            ]
+            for name, value in attrs + list(extra.items()):
+                s.append(self._renderSingleAttribute(indentation, name, value))
         return s
 
     def _renderLinkedObject(self, obj, name, indentation="  "):
@@ -205,17 +200,19 @@ class Hdf5TreeView(object):
     def _renderDataset(self, dset, name, indentation="  "):
         """return a [formatted_string] with the contents and structure of a dataset"""
         shape = dset.shape
-        # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
-        if self.isNeXus:
-            if "target" in dset.attrs:
-                target_addr = utils.decode_byte_string(dset.attrs["target"])
-                if target_addr != dset.name:
-                    return self._renderLinkedObject(dset, name, indentation)
+        try:
+            dset.dtype
+        except Exception:  # some HDF5 datatypes have no equivalent in Python
+            s = ["%s%s:unknown" % (indentation, name)]
+            return s + self._renderAttributes(dset, indentation)
         txType = self._renderDsType(dset)
         txShape = self._renderDsShape(dset)
         s = []
-        if dset.dtype.kind == "S":
-            if isinstance(dset[()], numpy.ndarray):
+        if shape is None:  # dataset has no data
+            s += ["%s%s:%s = (empty)" % (indentation, name, txType)]
+            s += self._renderAttributes(dset, indentation)
+        elif dset.dtype.kind == "S":
+            if len(shape) == 1:
                 ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()]]
                 if len(ss) > 1:
                     value = " = [%s]" % ", ".join(ss)
@@ -269,7 +266,7 @@ class Hdf5TreeView(object):
         t = str(obj.dtype)
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if obj.dtype.kind == "S":  # fixed-length string
-            if len(obj.shape):
+            if obj.shape:
                 t = "char[%s]" % ",".join([str(o.dtype.itemsize) for o in obj])
             else:
                 t = "CHAR"
@@ -281,7 +278,7 @@ class Hdf5TreeView(object):
 
     def _renderDsShape(self, obj):
         """return the shape of the HDF5 dataset"""
-        s = obj.shape
+        s = obj.shape or []
         l = []
         for dim in s:
             l.append(str(dim))
@@ -297,6 +294,8 @@ class Hdf5TreeView(object):
         r = ""
         if len(shape) > 0:
             r = self._renderNdArray(obj, indentation + "  ")
+        else:
+            r = str(obj[()])
         return r
 
     def _decideNumShown(self, n):
-- 
2.43.0


From 1beaf30429226fd6191f4ea92a23f5ccb17ffab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 09/38] fix: summary of only the requested statuses

---
 punx/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 0d36d75..ad43892 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -167,7 +167,8 @@ class Data_File_Validator(object):
         for status in report_statuses:
             summary[status] = 0
         for f in self.validations:
-            summary[f.status] += 1
+            if f.status in summary:
+                summary[f.status] += 1
         return summary
 
     def print_report(self, statuses=None):
-- 
2.43.0


From db6d791834f115d97558b02e00a7b2c404802166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 10/38] fix: contributed definition with one group used as base
 class

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index ad43892..c71fdf9 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -392,7 +392,7 @@ class Data_File_Validator(object):
             and len(nxdl_def.links) == 0
             and len(nxdl_def.groups) == 1
         ):  # maybe ...
-            entry_group = nxdl_def.groups.values()[0]
+            entry_group = list(nxdl_def.groups.values())[0]
             # TODO: test entry_group.NX_class == "NXentry" but that attribute is not ready yet!
             # assume OK
             return "definition" not in entry_group.fields
-- 
2.43.0


From 02651af6e81c3ae46f97a8ec5e79b18123c6a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 11/38] fix: NXDL defaults are not shared between classes, each
 file set uses its own XML Schema

---
 punx/nxdl_manager.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index fed1769..1152cde 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -29,6 +29,7 @@ name).
 from __future__ import print_function
 
 import collections
+import copy
 import lxml.etree
 import os
 
@@ -75,11 +76,10 @@ class NXDL_Manager(object):
     def __init__(self, file_set=None):
         if file_set is None:
             cm = cache_manager.CacheManager()
-            file_set = cm.default_file_set
+            file_set = cm.select_NXDL_file_set()  # the default
         elif isinstance(file_set, str):
             cm = cache_manager.CacheManager()
-            cm.select_NXDL_file_set(file_set)
-            file_set = cm.default_file_set
+            file_set = cm.select_NXDL_file_set(file_set)
         assert isinstance(file_set, cache_manager.NXDL_File_Set)
 
         if file_set.path is None or not os.path.exists(file_set.path):
@@ -158,15 +158,17 @@ def get_NXDL_file_list(nxdl_dir):
     return nxdl_file_list
 
 
-def validate_xml_tree(xml_tree):
+def validate_xml_tree(xml_tree, schema=None):
     """
     Validate an NXDL XML file against its NeXus NXDL XML Schema file.
 
-    :param str xml_file_name: name of XML file
+    :param obj xml_tree: content of the XML file
+    :param obj schema: XML Schema (default: from the default file set)
     """
     from . import schema_manager
 
-    schema = schema_manager.get_default_schema_manager().lxml_schema
+    if schema is None:
+        schema = schema_manager.get_default_schema_manager().lxml_schema
     try:
         result = schema.assertValid(xml_tree)
     except lxml.etree.DocumentInvalid as exc:
@@ -203,7 +205,7 @@ class NXDL__base(object):
             Instance of nxdl_schema.NXDL_schema__element.
         """
         for k, v in sorted(defaults.attributes.items()):
-            self.xml_attributes[k] = v
+            self.xml_attributes[k] = copy.copy(v)  # might be modified below
 
     def parse_attributes(self, xml_node):
         """
@@ -440,7 +442,9 @@ class NXDL__definition(NXDL__base):  # lgtm [py/missing-call-to-init]
         lxml_tree = lxml.etree.parse(self.file_name)
 
         try:
-            validate_xml_tree(lxml_tree)
+            validate_xml_tree(
+                lxml_tree, self.nxdl_manager.nxdl_file_set.schema_manager.lxml_schema
+            )
         except InvalidNxdlFile as exc:
             msg = "NXDL file is not valid: " + self.file_name
             msg += "\n" + str(exc)
-- 
2.43.0


From 0fb6584c0751891286f40de67bb947446c5accf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 12/38] fix: description of XML Schema independent of schemas
 read before

---
 punx/schema_manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 58dc20f..2e3a0c5 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -120,6 +120,7 @@ class SchemaManager(object):
         nodes = self.lxml_root.xpath("xs:element", namespaces=self.ns)
         if len(nodes) != 1:
             raise InvalidNxdlFile(self.schema_file)
+        _GroupParsing().started = False
         self.nxdl = Schema_Root(
             nodes[0], ns_dict=self.ns, schema_root=self.lxml_root, schema_manager=self
         )
@@ -235,7 +236,7 @@ class Schema_nxdlType(object):
             elif node.tag.endswith("}annotation"):
                 pass
             elif node.tag.endswith("}list"):
-                self.values = map(strip_ns, [node.attrib["itemType"]])
+                self.values = [strip_ns(node.attrib["itemType"])]
             elif node.tag.endswith("}restriction"):
                 self.restriction = strip_ns(node.attrib["base"])
                 self.values = []
@@ -245,7 +246,7 @@ class Schema_nxdlType(object):
                     elif subnode.tag.endswith("}enumeration"):
                         self.values.append(subnode.attrib["value"])
             elif node.tag.endswith("}union"):
-                self.union = map(strip_ns, node.attrib["memberTypes"].split())
+                self.union = [strip_ns(v) for v in node.attrib["memberTypes"].split()]
             else:
                 raise_error(node, "unhandled tag=", node.tag)
 
@@ -349,8 +350,6 @@ class Schema_Root(_Mixin):
     :param obj schema_root: optional, instance of lxml.etree._Element
     """
 
-    attrs = {}
-    children = {}
     patterns = None
     type = None
     units = None
@@ -371,6 +370,8 @@ class Schema_Root(_Mixin):
             schema_root=schema_root,
         )
 
+        self.attrs = {}
+        self.children = {}
         self.schema_manager = schema_manager
         element_type = element_node.attrib.get("type")
         if element_type is None:
-- 
2.43.0


From daea6b5265e5b9c658f97746bc0fe2e6f82fd326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 13/38] fix: install is all or nothing, never a partial file
 set

---
 punx/cache_manager.py | 92 +++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1446758..41c8e72 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -68,6 +68,7 @@ import pathlib
 import pyRestTable
 import requests
 import shutil
+import tempfile
 
 from PyQt5 import QtCore
 from requests.packages.urllib3 import disable_warnings
@@ -112,7 +113,8 @@ def write_json_file(filename, obj):
 
     :see: https://docs.python.org/3.5/library/json.html#json.dumps
     """
-    open(filename, "w").write(json.dumps(obj, indent=2))
+    with open(filename, "w") as f:
+        f.write(json.dumps(obj, indent=2))
 
 
 def read_json_file(filename):
@@ -198,44 +200,58 @@ def download_file_set(file_set_name, cache_path, replace=False):
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
-    download_path = cache_path / zip_content.filelist[0].filename.split("/")[0]
-    allowed_parents = NXDL_categories  # directories
-    allowed_parents.append(download_path.name)
-
-    item_count = 0
-    dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
-    for item in zip_content.namelist():
-        if is_extractable(item, NXDL_file_endings_list, allowed_parents):
-            zip_content.extract(item, cache_path)
-            dt = max(zip_content.getinfo(item).date_time, dt)
-            item_count += 1
-            print(f"{item_count} Extracted: {item}")
-
-    if item_count < 2:
-        raise ValueError("no NXDL content downloaded")
-
-    ymd_hms = datetime.datetime(
-        *dt[:3], hour=dt[3], minute=dt[4], second=dt[5]
-    )
+    # Prepare the file set in a work directory (not found as a file set).
+    # Do not disturb the other file sets until the new one is complete.
+    work_path = pathlib.Path(tempfile.mkdtemp(prefix=".install-", dir=cache_path))
+    try:
+        extract_path = work_path / "new"
+        download_path = extract_path / zip_content.filelist[0].filename.split("/")[0]
+        allowed_parents = NXDL_categories + [download_path.name]  # directories
+
+        item_count = 0
+        dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
+        for item in zip_content.namelist():
+            if is_extractable(item, NXDL_file_endings_list, allowed_parents):
+                zip_content.extract(item, extract_path)
+                dt = max(zip_content.getinfo(item).date_time, dt)
+                item_count += 1
+                print(f"{item_count} Extracted: {item}")
+
+        for item in ["nxdl.xsd", "nxdlTypes.xsd"] + NXDL_categories:
+            if item_count < 2 or not (download_path / item).exists():
+                raise ValueError("no NXDL content downloaded")
+
+        ymd_hms = datetime.datetime(
+            *dt[:3], hour=dt[3], minute=dt[4], second=dt[5]
+        )
 
-    info = dict(
-        ref=file_set_name,
-        sha=zip_content.comment.decode("utf8"),
-        zip_url=url,
-        last_modified=ymd_hms.isoformat(sep=" "),
-    )
-    info["# description"] = "NXDL files downloaded from GitHub repository"
-    info["# written"] = str(datetime.datetime.now())
-    # TODO: move this code into the NXDL_File_Set class
-    infofile = download_path / INFO_FILE_NAME
-    write_json_file(infofile, info)
-    print(f"Created: {infofile}")
-
-    # last, rename the ``download_path`` directory to ``file_set_name``
-    if NXDL_refs_dir_name.exists():
-        shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
-    shutil.move(download_path, NXDL_refs_dir_name)
-    print(f"Installed in directory: {NXDL_refs_dir_name}")
+        info = dict(
+            ref=file_set_name,
+            sha=zip_content.comment.decode("utf8"),
+            zip_url=url,
+            last_modified=ymd_hms.isoformat(sep=" "),
+        )
+        info["# description"] = "NXDL files downloaded from GitHub repository"
+        info["# written"] = str(datetime.datetime.now())
+        # TODO: move this code into the NXDL_File_Set class
+        infofile = download_path / INFO_FILE_NAME
+        write_json_file(infofile, info)
+        print(f"Created: {infofile}")
+
+        # last, rename the ``download_path`` directory to ``file_set_name``
+        if NXDL_refs_dir_name.exists():
+            replaced_path = work_path / "replaced"
+            os.rename(NXDL_refs_dir_name, replaced_path)
+            try:
+                os.rename(download_path, NXDL_refs_dir_name)
+            except OSError:
+                os.rename(replaced_path, NXDL_refs_dir_name)
+                raise
+        else:
+            os.rename(download_path, NXDL_refs_dir_name)
+        print(f"Installed in directory: {NXDL_refs_dir_name}")
+    finally:
+        shutil.rmtree(work_path, ignore_errors=True)
 
 
 def table_of_caches():
-- 
2.43.0


From fdda1309d7e0bd695896fc3dcde5474da3bb7703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 14/38] fix: selection and default NXDL file set follow what is
 installed

---
 punx/cache_manager.py | 15 +++++++++++++--
 punx/main.py          |  4 ++--
 punx/nxdltree.py      |  2 +-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 41c8e72..bcfbe1e 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -325,6 +325,7 @@ class CacheManager(singletons.Singleton):
         def sorter(value):
             return self.NXDL_file_sets[value].last_modified
 
+        self.all_file_sets  # refresh: file sets might have been installed
         file_set_keys = sorted(self.NXDL_file_sets, key=sorter, reverse=True)
 
         if ref not in file_set_keys:
@@ -437,8 +438,18 @@ class Base_Cache(object):
             if os.path.isdir(os.path.join(cache_path, item)):
                 info_file = os.path.join(cache_path, item, INFO_FILE_NAME)
                 if os.path.exists(info_file):
-                    fs[item] = NXDL_File_Set()
-                    fs[item].read_info_file(info_file)
+                    file_set = NXDL_File_Set()
+                    try:
+                        file_set.read_info_file(info_file)
+                    except (AttributeError, OSError, ValueError) as exc:
+                        logger.error("Cannot read %s: %s", info_file, exc)
+                        continue
+                    if not isinstance(file_set.last_modified, str) or not isinstance(
+                        file_set.sha, str
+                    ):
+                        logger.error("Not a file set description: %s", info_file)
+                        continue
+                    fs[item] = file_set
         return fs
 
     def cleanup(self):
diff --git a/punx/main.py b/punx/main.py
index a6c069a..8cbb78e 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -99,7 +99,7 @@ def func_configuration(args):
     cm = cache_manager.CacheManager()
     print("Locally-available versions of NeXus definitions (NXDL files)")
     print(cm.table_of_caches())
-    print("default NXDL file set: ", cm.default_file_set.ref)
+    print("default NXDL file set: ", cm.select_NXDL_file_set().ref)
 
 
 def func_demo(args):
@@ -259,7 +259,7 @@ def func_install(args):
         )
 
     print(cm.table_of_caches())
-    print(f"default file set: {cm.default_file_set.ref}")
+    print(f"default file set: {cm.select_NXDL_file_set().ref}")
 
 
 class MyArgumentParser(argparse.ArgumentParser):
diff --git a/punx/nxdltree.py b/punx/nxdltree.py
index 72b3d55..60f563c 100644
--- a/punx/nxdltree.py
+++ b/punx/nxdltree.py
@@ -56,7 +56,7 @@ class NxdlTreeView(object):
         The work of parsing the data file is done in this method.
         """
         cm = cache_manager.CacheManager()
-        file_set = cm.default_file_set
+        file_set = cm.select_NXDL_file_set()  # the default
 
         xslt_file = os.path.join(file_set.path, self.nxdl_category, "nxdlformat.xsl")
         if not os.path.exists(xslt_file):
-- 
2.43.0


From ff0e79a1384ec4380bbb1a8eaa36cc64517221b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 15/38] fix: commands tree & validate end cleanly for unusable
 files, validate NXDL files

---
 punx/main.py         | 47 ++++++++++++++++++++++++++++----------------
 punx/nxdl_manager.py |  2 +-
 punx/nxdltree.py     |  2 ++
 punx/utils.py        | 10 ++++++++++
 4 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index 8cbb78e..4803ca8 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -73,7 +73,7 @@ logging.basicConfig(
 
 
 from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
@@ -162,30 +162,44 @@ def func_tree(args):
     if args.infile.endswith(".nxdl.xml"):
         from . import nxdltree
 
+        if not os.path.exists(args.infile):
+            exit_message("File not found: " + args.infile)
         try:
             mc = nxdltree.NxdlTreeView(os.path.abspath(args.infile))
-        except FileNotFound:
-            exit_message("File not found: " + args.infile)
+            report = mc.report(args.show_attributes)
         except Exception as exc:
             exit_message(str(exc))
-        report = mc.report(args.show_attributes)
         print("\n".join(report or ""))
 
     else:
         from . import h5tree
 
-        try:
-            mc = h5tree.Hdf5TreeView(os.path.abspath(args.infile))
-        except FileNotFound:
+        if not os.path.exists(args.infile):
             exit_message("File not found: " + args.infile)
-        mc.array_items_shown = args.max_array_items
-        try:
-            report = mc.report(args.show_attributes)
-        except HDF5_Open_Error:
+        if not utils.isHdf5File(args.infile):
             exit_message("Could not open as HDF5: " + args.infile)
+        mc = h5tree.Hdf5TreeView(os.path.abspath(args.infile))
+        mc.array_items_shown = args.max_array_items
+        report = mc.report(args.show_attributes)
         print("\n".join(report or ""))
 
 
+def validate_nxdl_file(infile, file_set):
+    """
+    validate a NXDL XML file with the XML Schema of the file set
+    """
+    from . import nxdl_manager
+    import lxml.etree
+
+    if not os.path.exists(infile):
+        exit_message("File not found: " + infile)
+    try:
+        tree = lxml.etree.parse(infile)
+        nxdl_manager.validate_xml_tree(tree, file_set.schema_manager.lxml_schema)
+    except (InvalidNxdlFile, OSError, lxml.etree.XMLSyntaxError) as exc:
+        exit_message(f"NXDL file is not valid: {infile}\n{exc}")
+
+
 def func_validate(args):
     """
     validate the content of a NeXus HDF5 data file of NXDL XML file
@@ -194,12 +208,6 @@ def func_validate(args):
 
     cm = cache_manager.CacheManager()
 
-    if args.infile.endswith(".nxdl.xml"):
-        result = validate.validate_xml(args.infile)
-        if result is None:
-            print(args.infile, " validates")
-        return
-
     file_sets = list(cm.all_file_sets.keys())
     if args.file_set_name not in file_sets:
         exit_message(
@@ -207,6 +215,11 @@ def func_validate(args):
             f"  Either install it or use one of these: {', '.join(file_sets)}"
         )
 
+    if args.infile.endswith(".nxdl.xml"):
+        validate_nxdl_file(args.infile, cm.select_NXDL_file_set(args.file_set_name))
+        print(args.infile, " validates")
+        return
+
     validator = validate.Data_File_Validator(args.file_set_name)
 
     # determine which findings are to be reported
diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 1152cde..5e5f825 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -33,7 +33,7 @@ import copy
 import lxml.etree
 import os
 
-from .__init__ import FileNotFound, InvalidNxdlFile
+from . import FileNotFound, InvalidNxdlFile
 from . import nxdl_schema
 from . import cache_manager
 from . import utils
diff --git a/punx/nxdltree.py b/punx/nxdltree.py
index 60f563c..821c713 100644
--- a/punx/nxdltree.py
+++ b/punx/nxdltree.py
@@ -87,6 +87,8 @@ class NxdlTreeView(object):
         )
 
         doc = __parse_xml__(self.nxdl_file)
+        if doc is None:
+            raise ValueError("cannot read as XML: " + self.nxdl_file)
         root = doc.getroot()
         category = root.get("category")
         if category is None:
diff --git a/punx/utils.py b/punx/utils.py
index ca2c662..65644f0 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -17,6 +17,7 @@ utility routines
    ~get_child
    ~has_child
    ~sorted_attributes
+   ~isHdf5File
    ~isHdf5FileObject
    ~isHdf5Group
    ~isHdf5Dataset
@@ -115,6 +116,15 @@ def isHdf5FileObject(obj):
     return isinstance(obj, h5py.File)
 
 
+def isHdf5File(filename):
+    """Is `filename` a (readable) HDF5 file?"""
+    try:
+        with h5py.File(filename, "r"):
+            return True
+    except OSError:
+        return False
+
+
 def isHdf5Group(obj):
     """Is `obj` an HDF5 Group?"""
     return isinstance(obj, h5py.Group) and not isHdf5FileObject(obj)
-- 
2.43.0


From 65b48829ff3063a9fc4b61a94de942f5d74c08c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 16/38] fix: @axes with values that are arrays

---
 punx/validations/attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 4452f83..49d66a3 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -71,7 +71,7 @@ def axes_handler(validator, v_item):
         axes_attr = [axes_attr]  # ensure it is array
 
     for axis_name in axes_attr:
-        if axis_name == ".":
+        if isinstance(axis_name, str) and axis_name == ".":
             test_name = f"valid name @axes['{axis_name}']"
             k = "placeholder: no axis for this dimension"
             validator.record_finding(v_item, test_name, finding.OK, k)
-- 
2.43.0


From f6720f3075a3adf5be54864bfcff3025299c8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:54 +0000
Subject: [PATCH 17/38] fix: one rule for contributed definitions used as base
 classes

---
 punx/validate.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index c71fdf9..660c4bd 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -386,17 +386,9 @@ class Data_File_Validator(object):
         if nxdl_def.category == "base_classes":
             return True
         # now, need to work at it a bit
-        # *Should* only be one NXentry group but that is not a rule.
-        if (
-            len(nxdl_def.fields) == 0
-            and len(nxdl_def.links) == 0
-            and len(nxdl_def.groups) == 1
-        ):  # maybe ...
-            entry_group = list(nxdl_def.groups.values())[0]
-            # TODO: test entry_group.NX_class == "NXentry" but that attribute is not ready yet!
-            # assume OK
-            return "definition" not in entry_group.fields
-        return True
+        from .validations import attribute
+
+        return attribute.isBaseClassNXDL(nxdl_def)
 
 
 class ValidationItem(object):
-- 
2.43.0


From 27fb4a115d9b2d46441e7cd76fc16e6c19e3b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:30 +0000
Subject: [PATCH 18/38] fix: findings do not depend on order of creation

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 660c4bd..c6029f7 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -291,7 +291,7 @@ class Data_File_Validator(object):
             return v
 
         obj = get_subject(parent, group, link_name)
-        for item in group:
+        for item in sorted(group):  # not: in order of creation
             name = utils.decode_byte_string(item)
             child = utils.get_child(group, item)
             if child is None:  # broken link: nothing to validate
-- 
2.43.0


From e8f2b9a76c084c05e216c2e7e7e6c3eaed5ae58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:38 +0000
Subject: [PATCH 19/38] fix: close files of external links

---
 punx/validate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/punx/validate.py b/punx/validate.py
index c6029f7..78b60b5 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -113,6 +113,10 @@ class Data_File_Validator(object):
         if utils.isHdf5FileObject(self.h5):
             self.h5.close()
             self.h5 = None
+            # files of external links are open as long as their objects are kept
+            for v_item in self.addresses.values():
+                if isinstance(v_item.h5_object, (h5py.Group, h5py.Dataset)):
+                    v_item.h5_object = None
 
     def record_finding(self, v_item, key, status, comment):
         """
-- 
2.43.0


From 42b2925958558c409b1c15568c0d1352f6724ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 20/38] fix: order of items whose names are not text

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 78b60b5..29b6b4e 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -295,7 +295,7 @@ class Data_File_Validator(object):
             return v
 
         obj = get_subject(parent, group, link_name)
-        for item in sorted(group):  # not: in order of creation
+        for item in sorted(group, key=utils.decode_byte_string):  # by name
             name = utils.decode_byte_string(item)
             child = utils.get_child(group, item)
             if child is None:  # broken link: nothing to validate
-- 
2.43.0


From 0d8819bf1454fce6e6d018dbe53282b73cb4f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:48 +0000
Subject: [PATCH 21/38] fix: tree view of links whose names are not UTF-8

---
 punx/h5tree.py |  2 +-
 punx/utils.py  | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 9d8ea94..0ded8e2 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -125,7 +125,7 @@ class Hdf5TreeView(object):
         groups = []
         for link_name in sorted(obj, key=utils.decode_byte_string):
             itemname = utils.decode_byte_string(link_name)
-            link_info = obj.get(link_name, getlink=True)
+            link_info = utils.get_link(obj, link_name)
             # prevent fails for external links if file or path is not available
             if isinstance(link_info, h5py.SoftLink):
                 value = None
diff --git a/punx/utils.py b/punx/utils.py
index 65644f0..8280d60 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -15,6 +15,7 @@ utility routines
    ~decode_byte_string
    ~get_attribute
    ~get_child
+   ~get_link
    ~has_child
    ~sorted_attributes
    ~isHdf5File
@@ -91,6 +92,22 @@ def get_child(group, name):
         return None
 
 
+def get_link(group, name):
+    """
+    return description of the named link in HDF5 group, how it is stored
+    """
+    try:
+        return group.get(name, getlink=True)
+    except UnicodeDecodeError:  # name is not UTF-8
+        kind = group.id.links.get_info(name).type
+        if kind == h5py.h5l.TYPE_HARD:
+            return h5py.HardLink()
+        value = group.id.links.get_val(name)
+        if kind == h5py.h5l.TYPE_SOFT:
+            return h5py.SoftLink(decode_byte_string(value))
+        return h5py.ExternalLink(*[decode_byte_string(v) for v in value])
+
+
 def has_child(group, name):
     """Is `name` a name of something in this HDF5 group?"""
     return isinstance(name, str) and len(name) > 0 and name in group
-- 
2.43.0


From 03d1f497aa3939835744f43248076ae25f290261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 22/38] fix: tree view shows value of scalars for any number of
 array items

---
 punx/h5tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 0ded8e2..811986a 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -233,7 +233,7 @@ class Hdf5TreeView(object):
             s += self._renderAttributes(dset, indentation)
         else:
 
-            if self.array_items_shown > 2:
+            if self.array_items_shown > 2 or shape == ():
                 value = self._renderArray(dset, indentation + "  ")
                 if len(dset.shape) < 2:
                     # show the array inline with the field
-- 
2.43.0


From b3ad5ee28d8a43dcc2448e3168a191396c271471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 23/38] fix: processing instructions in symbols of NXDL files

---
 punx/nxdl_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 5e5f825..7a30269 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -687,8 +687,8 @@ class NXDL__symbols(NXDL__base):
     def parse_nxdl_xml(self, symbols_node):
         """parse the XML content"""
         for node in symbols_node:
-            if isinstance(node, lxml.etree._Comment):
-                continue
+            if not isinstance(node.tag, str):
+                continue  # comment or processing instruction
 
             element_type = node.tag.split("}")[-1]
             if element_type == "symbol":
-- 
2.43.0


From 93df30831d0046ee859b299d5bb4289be5415113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 24/38] fix: description of group in XML Schema that also has
 choice of groups

---
 punx/schema_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 2e3a0c5..4563485 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -508,6 +508,7 @@ class Schema_Element(_Mixin):
         else:
             # avoid known infinite recursion: group may contain group(s)
             ok_to_parse = True
+            nested = True
             if (
                 xml_obj.attrib["name"] == "group"
                 and xml_obj.attrib["type"] == "nx:groupType"
@@ -517,10 +518,14 @@ class Schema_Element(_Mixin):
                     # needs a special code to apply this rule
                     #     isinstance(obj, _Recursion)
                     self.children["group"] = _Recursion("group")
-                _GroupParsing().started = True
+                else:
+                    nested = False
+                    _GroupParsing().started = True
             if ok_to_parse:
                 type_obj = Schema_Type(ref, schema_root=self.lxml_root)
                 type_obj.copy_to(self)
+            if not nested:
+                _GroupParsing().started = False
 
 
 class Schema_Type(_Mixin):  # lgtm [py/missing-call-to-init]
-- 
2.43.0


From b2f335fd1379deb9203e6c2c675eb72944cb2fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 25/38] fix: all attributes of dim element in XML Schema

---
 punx/schema_manager.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 4563485..5c41b62 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -497,10 +497,9 @@ class Schema_Element(_Mixin):
         if ref is None:
             for node in xml_obj:
                 if node.tag.endswith("}complexType"):
-                    a = Schema_Attribute(
-                        node.find("xs:attribute", self.ns), schema_root=self.lxml_root
-                    )
-                    self.attrs[a.name] = a
+                    for subnode in node.findall("xs:attribute", self.ns):
+                        a = Schema_Attribute(subnode, schema_root=self.lxml_root)
+                        self.attrs[a.name] = a
                 elif node.tag.endswith("}annotation"):
                     pass
                 else:
-- 
2.43.0


From 7010271d50e1ee473f67dfe0a7f4459ee2c1d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 26/38] fix: names of units in XML Schema

---
 punx/schema_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 5c41b62..0077ddb 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -196,7 +196,7 @@ class SchemaManager(object):
                     db[obj.name] = obj
 
         # re-arrange
-        units = list(db["anyUnitsAttr"].values or [])
+        units = list(db["anyUnitsAttr"].values or db["anyUnitsAttr"].union or [])
         del db["anyUnitsAttr"]
         del db["primitiveType"]
 
-- 
2.43.0


From f2f8a9762571f5ff5fdaeb609342ebf6e47ea17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:58 +0000
Subject: [PATCH 27/38] fix: comments and processing instructions in XML Schema
 files

---
 punx/nxdl_schema.py    | 3 ++-
 punx/schema_manager.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 55112d6..702e42a 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -441,7 +441,8 @@ class NXDL_item_catalog(object):
     def __init__(self, nxdl_file_name):
         self.db = {}
 
-        doc = lxml.etree.parse(nxdl_file_name)
+        parser = lxml.etree.XMLParser(remove_comments=True, remove_pis=True)
+        doc = lxml.etree.parse(nxdl_file_name, parser)
         root = doc.getroot()
         self.ns = get_xml_namespace_dictionary()
 
diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 0077ddb..8343907 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -113,7 +113,8 @@ class SchemaManager(object):
         if not os.path.exists(self.schema_file):
             raise FileNotFound("XML Schema file: " + self.schema_file)
 
-        self.lxml_tree = lxml.etree.parse(self.schema_file)
+        parser = lxml.etree.XMLParser(remove_comments=True, remove_pis=True)
+        self.lxml_tree = lxml.etree.parse(self.schema_file, parser)
         self.lxml_schema = lxml.etree.XMLSchema(self.lxml_tree)
         self.lxml_root = self.lxml_tree.getroot()
 
@@ -181,7 +182,8 @@ class SchemaManager(object):
         self.types_file = os.path.join(path, "nxdlTypes.xsd")
         if not os.path.exists(self.types_file):
             raise FileNotFound(self.types_file)
-        lxml_types_tree = lxml.etree.parse(self.types_file)
+        parser = lxml.etree.XMLParser(remove_comments=True, remove_pis=True)
+        lxml_types_tree = lxml.etree.parse(self.types_file, parser)
 
         db = {}
         root = lxml_types_tree.getroot()
-- 
2.43.0


From 1d46b3bab66b555f14304eb3d71f06f6c2cb0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:58 +0000
Subject: [PATCH 28/38] fix: XML Schema with several nodes on one line

---
 punx/nxdl_schema.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/punx/nxdl_schema.py b/punx/nxdl_schema.py
index 702e42a..946ff8b 100644
--- a/punx/nxdl_schema.py
+++ b/punx/nxdl_schema.py
@@ -73,7 +73,8 @@ def get_named_parent_node(xml_node):
 def get_reference_keys(xml_node):
     """reference an xml_node in the catalog: ``catalog[section][line]``"""
     section = xml_node.tag.split("}")[-1]
-    line = "Line %d" % xml_node.sourceline
+    path = xml_node.getroottree().getpath(xml_node)  # several nodes may be on one line
+    line = "Line %d %s" % (xml_node.sourceline, path)
     return section, line
 
 
@@ -460,7 +461,8 @@ class NXDL_item_catalog(object):
 
         nodes = root.xpath("xs:element", namespaces=self.ns)
         assert len(nodes) == 1
-        self.definition_element = self.db["element"]["Line %d" % nodes[0].sourceline]
+        section, line = get_reference_keys(nodes[0])
+        self.definition_element = self.db[section][line]
         reference_type_name = nodes[0].attrib["type"].split(":")[-1]
         self.definition_element.children += self.db["schema"][
             reference_type_name
-- 
2.43.0


From 02c3ecd6838c806199d91aaa966f01f5bb8f027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 29/38] fix: the default schema manager is that of the latest
 file set, not of the last one selected

---
 punx/schema_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 8343907..923d626 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -85,7 +85,7 @@ def get_default_schema_manager():
     cm = cache_manager.CacheManager()
     assert cm is not None
     assert cm.default_file_set is not None
-    return cm.default_file_set.schema_manager
+    return cm.select_NXDL_file_set().schema_manager
 
 
 class SchemaManager(object):
@@ -103,7 +103,7 @@ class SchemaManager(object):
             cm = cache_manager.CacheManager()
             if cm is None or cm.default_file_set is None:
                 raise ValueError("Could not get NXDL file set from the cache")
-            path = cm.default_file_set.path
+            path = cm.select_NXDL_file_set().path
         schema_file = os.path.join(path, "nxdl.xsd")
         if not os.path.exists(schema_file):
             raise FileNotFound(schema_file)
@@ -177,7 +177,7 @@ class SchemaManager(object):
             cm = cache_manager.CacheManager()
             if cm is None or cm.default_file_set is None:
                 raise ValueError("Could not get NXDL file set from the cache")
-            path = cm.default_file_set.path
+            path = cm.select_NXDL_file_set().path
 
         self.types_file = os.path.join(path, "nxdlTypes.xsd")
         if not os.path.exists(self.types_file):
-- 
2.43.0


From bbadf857153eeea54970aaadaf7af1558f751cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 30/38] fix: a file set is in the source cache if its directory
 is, not if its path looks like it

---
 punx/cache_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index bcfbe1e..0522cca 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -547,7 +547,10 @@ class NXDL_File_Set(object):
 
         self.info = file_name
         self.path = os.path.abspath(os.path.dirname(file_name))
-        if self.path.find(os.path.join("punx", "cache")) > 0:
+        source_cache = os.path.join(
+            os.path.dirname(os.path.abspath(__file__)), SOURCE_CACHE_SUBDIR
+        )
+        if os.path.dirname(self.path) == source_cache:
             self.cache = "source"
         else:
             self.cache = "user"
-- 
2.43.0


From 3e83900f1febfd9655d1c3ad74d715a3cab902e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:12 +0000
Subject: [PATCH 31/38] fix: refuse a damaged archive, also when the damage is
 in the names of its files

---
 punx/cache_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 0522cca..35d05f5 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -156,7 +156,11 @@ def download_NeXus_zip_archive(url):
         try:
             print(f"Requesting download from {url}")
             archive = requests.get(url, verify=False)
-            return zipfile.ZipFile(io.BytesIO(archive.content))
+            zip_content = zipfile.ZipFile(io.BytesIO(archive.content))
+            damaged = zip_content.testzip()
+            if damaged is not None:
+                raise zipfile.BadZipFile(f"Damaged file in archive: {damaged}")
+            return zip_content
         except requests.exceptions.ConnectionError as _exc:
             raise IOError(f"ConnectionError from {url}\n{_exc}")
 
-- 
2.43.0


From 0ca5708f66b56354a60ba5aaacefdb09a7230d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:12 +0000
Subject: [PATCH 32/38] fix: do not replace a file set that was installed by
 another process meanwhile, unless asked to

---
 punx/cache_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 35d05f5..d5aa976 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -243,7 +243,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
         print(f"Created: {infofile}")
 
         # last, rename the ``download_path`` directory to ``file_set_name``
-        if NXDL_refs_dir_name.exists():
+        if replace and NXDL_refs_dir_name.exists():
             replaced_path = work_path / "replaced"
             os.rename(NXDL_refs_dir_name, replaced_path)
             try:
-- 
2.43.0


From b9bf21d51ad618dee03a38bf4fe9531cc8ca712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:01 +0000
Subject: [PATCH 33/38] fix: validate groups below a group whose NX_class ends
 with a slash

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 29b6b4e..7d6d618 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -496,7 +496,7 @@ class ValidationItem(object):
                 logger.log(INFORMATIVE, "%s is not NeXus content", self.h5_address)
                 return CLASSPATH_OF_NON_NEXUS_CONTENT
 
-            if not classpath.endswith(SLASH):
+            if classpath != SLASH:  # a class name may end with a slash, too
 
                 if isinstance(h5_obj, h5py.Group):
                     nx_class = utils.decode_byte_string(
-- 
2.43.0


From 5a17c0ba74106d5ab0ce8f0eae6d89b425d9978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:27 +0000
Subject: [PATCH 34/38] fix: judge item names as NXcollection content only
 inside of such a group

---
 punx/validations/item_name.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index a81de83..bc74cb9 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -173,12 +173,23 @@ def validItemName_match_key(validator, text):
             return k
 
 
+def is_in_collection(v_item):
+    """Is v_item an NXcollection group or inside of one?"""
+    if v_item.classpath == CLASSPATH_OF_NON_NEXUS_CONTENT:
+        return False
+    while v_item is not None:
+        if getattr(v_item, "nx_class", None) == "NXcollection":
+            return True
+        v_item = v_item.parent
+    return False
+
+
 def handle_groups_and_fields(validator, v_item):
     """validate the names of groups and fields"""
     # check against patterns until a match is found
     try:
         k = validItemName_match_key(validator, v_item.name)
-        if "NXcollection" in v_item.classpath:
+        if is_in_collection(v_item):
             status = finding.WARN
             k = "NXcollection contains non-NeXus content"
         elif k is None:
-- 
2.43.0


From 6466a69642f45becc6de0b02c665a7819507e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:32 +0000
Subject: [PATCH 35/38] fix: demonstrate with the default file set, it is not
 known that main is installed

---
 punx/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/main.py b/punx/main.py
index 4803ca8..adc5a84 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -134,7 +134,7 @@ def func_demo(args):
     print("")
     print("console> punx validate " + args.infile)
     args.report = ",".join(sorted(finding.VALID_STATUS_DICT.keys()))
-    args.file_set_name = cache_manager.GITHUB_NXDL_BRANCH
+    args.file_set_name = cache_manager.CacheManager().default_file_set.ref
     func_validate(args)
     del args.report
 
-- 
2.43.0


From ebb5938a67922c6ec5f4f44e9b27f038624d6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:30 +0000
Subject: [PATCH 36/38] fix: validate groups nested deeper than Python's limit
 of recursion

---
 punx/validate.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index 7d6d618..8d394ef 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -294,21 +294,32 @@ class Data_File_Validator(object):
                 addClasspath(av)
             return v
 
+        def contents(v):
+            return iter(sorted(v.h5_object, key=utils.decode_byte_string))  # by name
+
+        # no recursion: groups may be nested deeper than Python's limit
         obj = get_subject(parent, group, link_name)
-        for item in sorted(group, key=utils.decode_byte_string):  # by name
-            name = utils.decode_byte_string(item)
-            child = utils.get_child(group, item)
-            if child is None:  # broken link: nothing to validate
-                addr = obj.h5_address.rstrip(SLASH) + SLASH + name
-                c = "target of this link not found"
-                f = finding.Finding(addr, "link target", finding.WARN, c)
-                self.validations.append(f)
-            elif utils.isHdf5Group(child) or utils.isHdf5FileObject(child):
-                if obj.is_inside(child):
-                    continue  # link to a parent group: already in the catalog
-                self._group_address_catalog_(obj, child, name)
+        stack = [(obj, contents(obj))]
+        while stack:
+            obj, items = stack[-1]
+            for item in items:
+                name = utils.decode_byte_string(item)
+                child = utils.get_child(obj.h5_object, item)
+                if child is None:  # broken link: nothing to validate
+                    addr = obj.h5_address.rstrip(SLASH) + SLASH + name
+                    c = "target of this link not found"
+                    f = finding.Finding(addr, "link target", finding.WARN, c)
+                    self.validations.append(f)
+                elif utils.isHdf5Group(child) or utils.isHdf5FileObject(child):
+                    if obj.is_inside(child):
+                        continue  # link to a parent group: already in the catalog
+                    v = get_subject(obj, child, name)
+                    stack.append((v, contents(v)))
+                    break  # continue with the contents of this child
+                else:
+                    get_subject(obj, child, name)
             else:
-                get_subject(obj, child, name)
+                stack.pop()
 
     def validate_item_name(self, v_item):
         from .validations import item_name
-- 
2.43.0


From da0692298fa44506b24995abce332d0661be1664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:30 +0000
Subject: [PATCH 37/38] fix: tree view of groups nested deeper than Python's
 limit of recursion

---
 punx/h5tree.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 811986a..4e3c2c0 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -87,8 +87,18 @@ class Hdf5TreeView(object):
             tree_string_list = self._renderGroup(f, txt, indentation="")
         return tree_string_list
 
-    def _renderGroup(self, obj, name, indentation="  ", md=None, parents=[]):
-        """return a [formatted_string] with the contents of the group
+    def _renderGroup(self, obj, name, indentation="  "):
+        """return a [formatted_string] with the contents of the group and its subgroups"""
+        s = []
+        groups = [(obj, name, indentation)]
+        while groups:  # no recursion: groups may be nested deeper than Python's limit
+            txt, subgroups = self._renderOneGroup(*groups.pop())
+            s += txt
+            groups += reversed(subgroups)
+        return s
+
+    def _renderOneGroup(self, obj, name, indentation="  ", md=None, parents=[]):
+        """return a [formatted_string] with the contents of the group, and its subgroups
 
         Parameters
         ----------
@@ -163,11 +173,11 @@ class Hdf5TreeView(object):
                     s += [txt]
                     s += self._renderAttributes(value, indentation + "  ")
 
-        for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(value, itemname, indentation + "  ", md, parents)
-            s += g
-
-        return s
+        # things that look like groups are shown next
+        return s, [
+            (value, itemname, indentation + "  ", md, parents)
+            for value, itemname, md in groups
+        ]
 
     def _renderSingleAttribute(self, indentation, name, value):
         value = utils.decode_byte_string(value)
-- 
2.43.0


From 486e200331fca9b5272712ab74026228b20fbabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:51 +0000
Subject: [PATCH 38/38] fix: the report printed after a refused validation
 named the refused file for the findings of the file before

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 8d394ef..a655636 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -229,7 +229,6 @@ class Data_File_Validator(object):
 
         if not os.path.exists(fname):
             raise FileNotFound(fname)
-        self.fname = fname
 
         if self.h5 is not None:
             self.close()  # left open from previous call to validate()
@@ -239,6 +238,7 @@ class Data_File_Validator(object):
             logger.error("Could not open as HDF5: " + fname)
             raise HDF5_Open_Error(fname)
 
+        self.fname = fname
         self.__init_local__()
         self.build_address_catalog()
 
-- 
2.43.0

