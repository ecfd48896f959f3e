From b7b65b66e2ed844051a24af5e421f8c8d89de07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 01/45] fix: group @target check looks in the catalog of the
 validator

---
 punx/validations/hdf5_group_items_in_base_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index b98be6f..43d49e2 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -95,7 +95,7 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = v in v_item.manager.addresses
+            found = v in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
-- 
2.43.0


From 5b17074d64f9f2a2a5c331aaeb732d5c69faa2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 02/45] fix: contributed definitions with one group do not
 crash usedAsBaseClass

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index a9de31f..e6b0b89 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -383,7 +383,7 @@ class Data_File_Validator(object):
             and len(nxdl_def.links) == 0
             and len(nxdl_def.groups) == 1
         ):  # maybe ...
-            entry_group = nxdl_def.groups.values()[0]
+            entry_group = list(nxdl_def.groups.values())[0]
             # TODO: test entry_group.NX_class == "NXentry" but that attribute is not ready yet!
             # assume OK
             return "definition" not in entry_group.fields
-- 
2.43.0


From ae098b6f2f8f66660674e88c27e86c49b3eb6114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 03/45] fix: NXDL items do not share the default XML attributes
 of the schema

---
 punx/nxdl_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index fed1769..2a83e38 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -29,6 +29,7 @@ name).
 from __future__ import print_function
 
 import collections
+import copy
 import lxml.etree
 import os
 
@@ -203,7 +204,9 @@ class NXDL__base(object):
             Instance of nxdl_schema.NXDL_schema__element.
         """
         for k, v in sorted(defaults.attributes.items()):
-            self.xml_attributes[k] = v
+            # each instance has its own copy, so that changing
+            # a default value does not change it everywhere
+            self.xml_attributes[k] = copy.copy(v)
 
     def parse_attributes(self, xml_node):
         """
-- 
2.43.0


From ab2087b519d53d8f3f8856e049a874a4a0ba0915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 04/45] fix: a name pattern must match the whole name
 (including a trailing newline)

---
 punx/validations/item_name.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 9d31d90..ba3d1f0 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -110,10 +110,10 @@ def handle_NX_class(validator, v_item):
     status = finding.ERROR
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
         s = utils.decode_byte_string(v_item.h5_object)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        m = validator.regexp_cache[k].fullmatch(s)
+        matches = m is not None
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
         if matches:
@@ -154,11 +154,11 @@ def validItemName_match_key(validator, text):
     patterns = getValidItemNamePatterns(validator)
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
 
         s = utils.decode_byte_string(text)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        m = validator.regexp_cache[k].fullmatch(s)
+        matches = m is not None
         logger.debug("checking %s with %s: %s", s, k, str(matches))
         if matches:
             return k
-- 
2.43.0


From 279dab4f4a821c066f80b0fd4eeef48813940aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 05/45] fix: recognize @signal=1 written as a fixed-length
 string

---
 punx/validations/default_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 3fc38a8..a9628a0 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -136,7 +136,7 @@ def default_plot_v2(validator):
         if k.endswith("@signal"):
             for v_item in v:
                 if utils.isNeXusDataset(v_item.parent.h5_object):
-                    signal = str(v_item.h5_object)
+                    signal = str(utils.decode_byte_string(v_item.h5_object))
                     if signal == "1":
                         status = finding.OK
                         c = "found field with @signal=1: " + v_item.h5_address
-- 
2.43.0


From 0d2ead3ad31990b350a84da500c457f35759dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 06/45] fix: finding_summary() accepts a selection of the
 statuses

---
 punx/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index e6b0b89..b74b258 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -167,7 +167,8 @@ class Data_File_Validator(object):
         for status in report_statuses:
             summary[status] = 0
         for f in self.validations:
-            summary[f.status] += 1
+            if f.status in summary:
+                summary[f.status] += 1
         return summary
 
     def print_report(self, statuses=None):
-- 
2.43.0


From cd7884418f7675dd6ae7b6dea8c804b3595a00ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 07/45] fix: NXDL_Manager raises KeyError when the named file
 set is not known

---
 punx/nxdl_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 2a83e38..ec55e31 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -79,8 +79,10 @@ class NXDL_Manager(object):
             file_set = cm.default_file_set
         elif isinstance(file_set, str):
             cm = cache_manager.CacheManager()
-            cm.select_NXDL_file_set(file_set)
-            file_set = cm.default_file_set
+            file_sets = cm.all_file_sets
+            if file_set not in file_sets:
+                raise KeyError(f"NXDL file set not found: {file_set}")
+            file_set = file_sets[file_set]
         assert isinstance(file_set, cache_manager.NXDL_File_Set)
 
         if file_set.path is None or not os.path.exists(file_set.path):
-- 
2.43.0


From 3d8a9d3ab367df241e9da645bdbda301d1be341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 08/45] fix: validate NXDL files with the XML Schema of their
 own file set

---
 punx/nxdl_manager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index ec55e31..d9d448e 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -161,15 +161,20 @@ def get_NXDL_file_list(nxdl_dir):
     return nxdl_file_list
 
 
-def validate_xml_tree(xml_tree):
+def validate_xml_tree(xml_tree, file_set=None):
     """
     Validate an NXDL XML file against its NeXus NXDL XML Schema file.
 
-    :param str xml_file_name: name of XML file
+    :param obj xml_tree: parsed content of the XML file
+    :param obj file_set: instance of NXDL_File_Set which provides the
+        XML Schema (default: the default file set)
     """
     from . import schema_manager
 
-    schema = schema_manager.get_default_schema_manager().lxml_schema
+    if file_set is None:
+        schema = schema_manager.get_default_schema_manager().lxml_schema
+    else:
+        schema = file_set.schema_manager.lxml_schema
     try:
         result = schema.assertValid(xml_tree)
     except lxml.etree.DocumentInvalid as exc:
@@ -445,7 +450,7 @@ class NXDL__definition(NXDL__base):  # lgtm [py/missing-call-to-init]
         lxml_tree = lxml.etree.parse(self.file_name)
 
         try:
-            validate_xml_tree(lxml_tree)
+            validate_xml_tree(lxml_tree, self.nxdl_manager.nxdl_file_set)
         except InvalidNxdlFile as exc:
             msg = "NXDL file is not valid: " + self.file_name
             msg += "\n" + str(exc)
-- 
2.43.0


From 5ea2eb4bf561440b2d82aca1206fa48536a4a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 09/45] fix: parsing an XML Schema does not depend on the
 schemas parsed before

---
 punx/schema_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 58dc20f..d77e8cb 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -349,8 +349,6 @@ class Schema_Root(_Mixin):
     :param obj schema_root: optional, instance of lxml.etree._Element
     """
 
-    attrs = {}
-    children = {}
     patterns = None
     type = None
     units = None
@@ -371,6 +369,10 @@ class Schema_Root(_Mixin):
             schema_root=schema_root,
         )
 
+        self.attrs = {}
+        self.children = {}
+        _GroupParsing().started = False  # each schema is parsed from the start
+
         self.schema_manager = schema_manager
         element_type = element_node.attrib.get("type")
         if element_type is None:
-- 
2.43.0


From 32f56e1ce15acebd85cb36051112fcd39c385d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 10/45] fix: retry the download before reporting a connection
 error

---
 punx/cache_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1446758..9701e54 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -150,13 +150,14 @@ def download_NeXus_zip_archive(url):
     # disable warnings about GitHub self-signed https certificates
     disable_warnings(InsecureRequestWarning)
 
-    for _retry in range(GITHUB_RETRY_COUNT):  # noqa
+    for retry in range(GITHUB_RETRY_COUNT):
         try:
             print(f"Requesting download from {url}")
             archive = requests.get(url, verify=False)
             return zipfile.ZipFile(io.BytesIO(archive.content))
         except requests.exceptions.ConnectionError as _exc:
-            raise IOError(f"ConnectionError from {url}\n{_exc}")
+            if retry + 1 >= GITHUB_RETRY_COUNT:
+                raise IOError(f"ConnectionError from {url}\n{_exc}")
 
 
 def download_file_set(file_set_name, cache_path, replace=False):
-- 
2.43.0


From b2586adbbf811e594a6284aab683ebbced1ea0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 11/45] fix: decode HDF5 text as UTF-8, whatever the encoding
 of the terminal

---
 punx/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 319fd0a..0349e22 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -30,7 +30,6 @@ import h5py
 import logging
 import os
 import numpy
-import sys
 
 
 def decode_byte_string(value):
@@ -44,11 +43,13 @@ def decode_byte_string(value):
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
+            if value.dtype.kind == 'S':
+                value = numpy.char.decode(value, "utf8", "replace")
             return value.astype('U').tolist()
         else:
             return None
     elif isinstance(value, (bytes, numpy.bytes_)):
-        return value.decode(sys.stdout.encoding or "utf8")
+        return value.decode("utf8", "replace")
     else:
         return value
 
-- 
2.43.0


From 109b43144f6ce808ccbda9c2f6844263ccec70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 12/45] fix: an attribute value which is not text does not
 match any name pattern

---
 punx/validations/item_name.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index ba3d1f0..e0e87d7 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -112,8 +112,7 @@ def handle_NX_class(validator, v_item):
         if k not in validator.regexp_cache:
             validator.regexp_cache[k] = re.compile(p)
         s = utils.decode_byte_string(v_item.h5_object)
-        m = validator.regexp_cache[k].fullmatch(s)
-        matches = m is not None
+        matches = isinstance(s, str) and validator.regexp_cache[k].fullmatch(s) is not None
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
         if matches:
@@ -157,8 +156,7 @@ def validItemName_match_key(validator, text):
             validator.regexp_cache[k] = re.compile(p)
 
         s = utils.decode_byte_string(text)
-        m = validator.regexp_cache[k].fullmatch(s)
-        matches = m is not None
+        matches = isinstance(s, str) and validator.regexp_cache[k].fullmatch(s) is not None
         logger.debug("checking %s with %s: %s", s, k, str(matches))
         if matches:
             return k
-- 
2.43.0


From b9c9d48dbaebafd1b60fb7e5a2b3e879b1eee60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 13/45] fix: @target which is not text does not identify a link

---
 punx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/utils.py b/punx/utils.py
index 0349e22..75e8109 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -145,7 +145,7 @@ def isNeXusDataset(obj):
 def isNeXusLink(obj):
     """Is `obj` linked to another NeXus item?"""
     target = decode_byte_string(obj.attrs.get("target", ""))
-    return len(target) > 0 and target != obj.name
+    return isinstance(target, str) and len(target) > 0 and target != obj.name
 
 
 def setup_logger(log_name, level=None):
-- 
2.43.0


From 9ab2548fe46d81f3fcbbb77fc9050f6876a21ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 14/45] fix: validate attributes which are expected to be text
 but are not

---
 punx/validations/attribute.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 9c809a8..d8cf47e 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -63,6 +63,9 @@ def axes_handler(validator, v_item):
     if not isinstance(axes_attr, (list, numpy.ndarray)):
         axes_attr = [axes_attr]  # ensure it is array
 
+    h5parent = v_item.parent.h5_object
+    if utils.isHdf5Dataset(h5parent):
+        h5parent = h5parent.parent  # axes of a field: named in the same group
     for axis_name in axes_attr:
         # check each value of array that is a validItemName
         k = item_name.validItemName_match_key(validator, axis_name)
@@ -79,8 +82,7 @@ def axes_handler(validator, v_item):
 
         # check axis_name names local field (in this group)
         test_name = f"axes['{axis_name}'] exists"
-        h5parent = v_item.parent.h5_object
-        if h5parent.get(axis_name) is not None:
+        if isinstance(axis_name, str) and h5parent.get(axis_name) is not None:
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -95,9 +97,11 @@ def axes_handler(validator, v_item):
 def nxclass_handler(validator, v_item):
     """validate @NX_class"""
     nx_class = utils.decode_byte_string(v_item.h5_object)
-    nxdl = validator.manager.classes.get(nx_class)
+    nxdl = None
+    if isinstance(nx_class, str):
+        nxdl = validator.manager.classes.get(nx_class)
     if nxdl is None:
-        c = "not a recognized NXDL class: " + nx_class
+        c = "not a recognized NXDL class: " + str(nx_class)
         status = finding.ERROR
     elif isBaseClassNXDL(nxdl):
         c = "recognized NXDL base class: " + nx_class
@@ -131,7 +135,7 @@ def signal_handler(validator, v_item):
         validator.record_finding(v_item, TEST_NAME, status, c)
     elif utils.isHdf5Group(v_item.parent.h5_object):
         k = item_name.validItemName_match_key(validator, signal)
-        test_name = "valid name @signal=" + signal
+        test_name = "valid name @signal=" + str(signal)
         if k is None:
             status = finding.ERROR
             k = "not a valid NeXus name"
@@ -142,10 +146,10 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = signal in v_item.parent.h5_object
+        test = isinstance(signal, str) and signal in v_item.parent.h5_object
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
-        c += ": @signal=" + signal
+        c += ": @signal=" + str(signal)
         validator.record_finding(v_item, TEST_NAME, status, c)
     else:
         generic_handler(validator, v_item)
@@ -155,7 +159,7 @@ def target_handler(validator, v_item):
     """validate @target"""
     target = utils.decode_byte_string(v_item.h5_object)
 
-    if not target.startswith("/"):
+    if not isinstance(target, str) or not target.startswith("/"):
         status = finding.ERROR
         c = 'value be must absolute HDF5 address, start with "/"'
         validator.record_finding(v_item, TEST_NAME, status, c)
-- 
2.43.0


From f2ce0ead8985fd1c05c7c683149613a960db5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 15/45] fix: validate group attributes which are expected to be
 text but are not

---
 punx/validations/hdf5_group_items_in_base_class.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 43d49e2..ad967ff 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = v in v_item.h5_object
+    found = isinstance(v, str) and v in v_item.h5_object
     if found:
         status = finding.OK
         c = "found"
@@ -32,7 +32,7 @@ def child_exists(validator, test_name, v, v_item, a_item):
     c += ": " + v_item.h5_address
     if not c.endswith("/"):
         c += "/"
-    c += v
+    c += str(v)
     validator.record_finding(a_item, test_name, status, c)
 
 
@@ -67,13 +67,13 @@ def verify_group_attributes(validator, v_item, base_class):
         spec = base_class.attributes[k]
 
         if len(spec.enumerations) > 0:
-            match = v in spec.enumerations
+            match = isinstance(v, str) and v in spec.enumerations
             status = finding.TF_RESULT[match]
             if match:
                 c = "found"
             else:
                 c = "not found"
-            c += ": " + v
+            c += ": " + str(v)
             test_name = "attribute value enumeration"
             validator.record_finding(a_item, test_name, status, c)
             # TODO: ...
@@ -95,14 +95,14 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = v in validator.addresses
+            found = isinstance(v, str) and v in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
             else:
                 status = finding.ERROR
                 c = "not found"
-            c += ": " + v_item.h5_address + "/@target = " + v
+            c += ": " + v_item.h5_address + "/@target = " + str(v)
             validator.record_finding(a_item, test_name, status, c)
 
         elif k == "axes":
-- 
2.43.0


From b82cc6e5a6ac2b357bda4578dd68c44b5b340a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 16/45] fix: validate application definition fields which are
 missing or have no value

---
 punx/validations/application_definition.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 171c76d..e5858ba 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -15,13 +15,21 @@ from .. import utils
 from ..validate import ValidationItem
 
 
+def first_value(h5_obj):
+    """Return the (first) value of the HDF5 dataset or None if it has no value"""
+    if not utils.isHdf5Dataset(h5_obj):
+        return None
+    value = h5_obj[()]
+    if isinstance(value, numpy.ndarray):
+        value = value.flat[0] if value.size > 0 else None
+    return value
+
+
 def verify(validator, v_item):
     """
     Verify items specified in application definition are present in HDF5 data file
     """
-    item = v_item.h5_object["definition"][()]
-    if isinstance(item, (list, tuple, numpy.ndarray)):
-        item = item[0]
+    item = first_value(v_item.h5_object["definition"])
     ad_name = str(utils.decode_byte_string(item))
     key = "NeXus application definition"
 
@@ -63,10 +71,7 @@ def verify(validator, v_item):
         if len(spec.enumerations) > 0:
             found = False
             for enum in spec.enumerations:
-                obj = h5_obj[()]
-                if isinstance(obj, (list, tuple, numpy.ndarray)):
-                    obj = obj[0]
-                found = enum == utils.decode_byte_string(obj)
+                found = enum == utils.decode_byte_string(first_value(h5_obj))
                 if found:
                     break
             msg = "%s:%s" % (ad_name, field)
-- 
2.43.0


From 9468eeba6eda3b6b27f0838514d287f42e5d1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 17/45] fix: validate an entry when its definition names a
 class with no groups

---
 punx/validations/application_definition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index e5858ba..7508ae2 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -53,6 +53,9 @@ def verify(validator, v_item):
     c = ad_name + ": more validations needed"
     validator.record_finding(v_item, key, finding.TODO, c)
 
+    if len(ad.groups) == 0:
+        return  # such as a base class, used here by mistake
+
     # TODO: groups, attributes, links, type, ... in separate functions
     ad_entry = list(ad.groups.values())[
         0
-- 
2.43.0


From 0b5ea11f1e2996b4cd80d8952fd05aadaf1dfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 18/45] fix: report a missing application definition field at
 the address of its group

---
 punx/validations/application_definition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 7508ae2..7a426e4 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -68,7 +68,8 @@ def verify(validator, v_item):
         if h5_obj is None:
             msg += " not"
         msg += " found"
-        v_obj = ValidationItem(v_item, h5_obj)
+        # report a missing field with the group that should have it
+        v_obj = v_item if h5_obj is None else ValidationItem(v_item, h5_obj)
         validator.record_finding(v_obj, "NXDL field", status, msg)
 
         if len(spec.enumerations) > 0:
-- 
2.43.0


From bc555abe48be84713f868b6412beb1b70b244a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 19/45] fix: look for the default plot whatever the names and
 values in the file

---
 punx/validations/default_plot.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index a9628a0..f02a733 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -69,7 +69,7 @@ def default_plot_v3(validator):
             addr = v_item.h5_object.name
         if not addr.endswith("/"):
             addr += "/"
-        addr += utils.decode_byte_string(pointer)
+        addr += str(utils.decode_byte_string(pointer))
         return addr
 
     def attribute_points_at_target(v_item, attribute_name, v_target):
@@ -90,9 +90,8 @@ def default_plot_v3(validator):
     niac2014_path = []
     for v_item in short_list:
         # check existence of @default attributes, as well
-        _root, entry, data = v_item.h5_address.split("@")[0].split("/")  # noqa
-        nxdata = validator.addresses["/" + entry + "/" + data]
-        nxentry = validator.addresses["/" + entry]
+        nxdata = v_item.parent
+        nxentry = nxdata.parent
         nxroot = validator.addresses["/"]
         signal_h5_addr = build_h5_address(nxdata, nxdata.h5_object.attrs["signal"])
         t1 = attribute_points_at_target(nxroot, "default", nxentry.h5_address)
@@ -103,7 +102,7 @@ def default_plot_v3(validator):
             c = "field described by @signal does not exist"
             validator.record_finding(v_item, test_name + ", NXdata@signal", status, c)
             return None  # fail to identify as plottable since @signal is misleading
-        t4 = utils.isNeXusDataset(validator.addresses[signal_h5_addr].h5_object)
+        t4 = utils.isNeXusDataset(validator.h5.get(signal_h5_addr))
         if t3 and t4:
             status = finding.OK
             c = "correct default plot setup in /NXentry/NXdata"
-- 
2.43.0


From e0d03f0b458242b47eeaa91b52e534ed46c4f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 20/45] fix: punx validate accepts NXDL files, as documented

---
 punx/main.py     | 21 +++++++++++++--------
 punx/validate.py | 19 ++++++++++++++++++-
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index a6c069a..d8fb810 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -73,7 +73,7 @@ logging.basicConfig(
 
 
 from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from .__init__ import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
@@ -194,19 +194,24 @@ def func_validate(args):
 
     cm = cache_manager.CacheManager()
 
-    if args.infile.endswith(".nxdl.xml"):
-        result = validate.validate_xml(args.infile)
-        if result is None:
-            print(args.infile, " validates")
-        return
-
-    file_sets = list(cm.all_file_sets.keys())
+    all_file_sets = cm.all_file_sets
+    file_sets = list(all_file_sets.keys())
     if args.file_set_name not in file_sets:
         exit_message(
             f"File set '{args.file_set_name}' is not available locally."
             f"  Either install it or use one of these: {', '.join(file_sets)}"
         )
 
+    if args.infile.endswith(".nxdl.xml"):
+        try:
+            validate.validate_xml(args.infile, all_file_sets[args.file_set_name])
+        except FileNotFound:
+            exit_message("File not found: " + args.infile)
+        except InvalidNxdlFile as exc:
+            exit_message(f"{args.infile} is not valid: {exc}")
+        print(args.infile, " validates")
+        return
+
     validator = validate.Data_File_Validator(args.file_set_name)
 
     # determine which findings are to be reported
diff --git a/punx/validate.py b/punx/validate.py
index b74b258..84f6ded 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -32,10 +32,11 @@ INTERNAL
 import collections
 import h5py
 import logging
+import lxml.etree
 import os
 import pyRestTable
 
-from . import FileNotFound, HDF5_Open_Error
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile
 from . import finding
 from . import utils
 from . import nxdl_manager
@@ -48,6 +49,22 @@ VALIDITEMNAME_STRICT_PATTERN = r"[a-z_][a-z0-9_]*"
 logger = utils.setup_logger(__name__)
 
 
+def validate_xml(xml_file_name, file_set=None):
+    """
+    validate an NXDL XML file against the XML Schema of a NeXus file set
+
+    :param str xml_file_name: name of XML file
+    :param obj file_set: instance of NXDL_File_Set (default: the default file set)
+    """
+    if not os.path.exists(xml_file_name):
+        raise FileNotFound(xml_file_name)
+    try:
+        xml_tree = lxml.etree.parse(xml_file_name)
+    except lxml.etree.XMLSyntaxError as exc:
+        raise InvalidNxdlFile(exc)
+    nxdl_manager.validate_xml_tree(xml_tree, file_set)
+
+
 class Data_File_Validator(object):
 
     """
-- 
2.43.0


From dc1c975a9b7194d10ebe4de7f8e9f7d21e560f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 21/45] fix: the exceptions raised are those that the command
 line handles

---
 punx/main.py         | 4 ++--
 punx/nxdl_manager.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index d8fb810..a69826e 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -72,8 +72,8 @@ logging.basicConfig(
 )
 
 
-from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
+from . import __version__, __package_name__, __url__
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index d9d448e..e1dfeb5 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -33,7 +33,7 @@ import copy
 import lxml.etree
 import os
 
-from .__init__ import FileNotFound, InvalidNxdlFile
+from . import FileNotFound, InvalidNxdlFile
 from . import nxdl_schema
 from . import cache_manager
 from . import utils
-- 
2.43.0


From e4df773c6d134fa18de3d621431397a3528fec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 22/45] fix: punx tree reports a file that is missing or cannot
 be read

---
 punx/h5tree.py   | 9 +++++++--
 punx/main.py     | 2 ++
 punx/nxdltree.py | 8 +++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index e0c0b12..8eb46f9 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -24,6 +24,7 @@ import os
 import h5py
 import numpy
 
+from . import FileNotFound, HDF5_Open_Error
 from . import utils
 
 
@@ -51,9 +52,13 @@ class Hdf5TreeView(object):
         self.requested_filename = filename
         self.filename = None
         self.show_attributes = True
-        if os.path.exists(filename):
-            self.filename = filename
+        if not os.path.exists(filename):
+            raise FileNotFound(filename)
+        self.filename = filename
+        try:
             self.isNeXus = utils.isNeXusFile(filename)
+        except OSError:
+            raise HDF5_Open_Error(filename)
 
     def report(self, show_attributes=True):
         """
diff --git a/punx/main.py b/punx/main.py
index a69826e..92e7d92 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -178,6 +178,8 @@ def func_tree(args):
             mc = h5tree.Hdf5TreeView(os.path.abspath(args.infile))
         except FileNotFound:
             exit_message("File not found: " + args.infile)
+        except HDF5_Open_Error:
+            exit_message("Could not open as HDF5: " + args.infile)
         mc.array_items_shown = args.max_array_items
         try:
             report = mc.report(args.show_attributes)
diff --git a/punx/nxdltree.py b/punx/nxdltree.py
index 72b3d55..d431697 100644
--- a/punx/nxdltree.py
+++ b/punx/nxdltree.py
@@ -23,6 +23,7 @@ import logging
 import os
 import lxml.etree
 
+from . import FileNotFound
 from . import cache_manager
 
 logger = logging.getLogger(__name__)
@@ -45,9 +46,10 @@ class NxdlTreeView(object):
         self.requested_nxdl_file = nxdl_file
         self.nxdl_file = None
         self.show_attributes = True
-        if os.path.exists(nxdl_file):
-            self.nxdl_file = nxdl_file
-            self.nxdl_category = self._determine_category_()
+        if not os.path.exists(nxdl_file):
+            raise FileNotFound(nxdl_file)
+        self.nxdl_file = nxdl_file
+        self.nxdl_category = self._determine_category_()
 
     def report(self, show_attributes=True):
         """
-- 
2.43.0


From 83a37caf583bd85d1841926447882ceb507d3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 23/45] fix: punx demonstrate uses the default file set

---
 punx/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/main.py b/punx/main.py
index 92e7d92..cb3b550 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -134,7 +134,7 @@ def func_demo(args):
     print("")
     print("console> punx validate " + args.infile)
     args.report = ",".join(sorted(finding.VALID_STATUS_DICT.keys()))
-    args.file_set_name = cache_manager.GITHUB_NXDL_BRANCH
+    args.file_set_name = cache_manager.CacheManager().default_file_set.ref
     func_validate(args)
     del args.report
 
-- 
2.43.0


From fdec4bfcd4b160084d65410438448475fe515c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 24/45] fix: punx install reports the default file set as it is
 after the install

---
 punx/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/punx/main.py b/punx/main.py
index cb3b550..e31f479 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -266,6 +266,7 @@ def func_install(args):
         )
 
     print(cm.table_of_caches())
+    cm.select_NXDL_file_set()
     print(f"default file set: {cm.default_file_set.ref}")
 
 
-- 
2.43.0


From f54fec9d53034d085965cde105b9464dd0efced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 25/45] fix: install writes only inside of the cache directory

---
 punx/cache_manager.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 9701e54..af89fc7 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -160,6 +160,15 @@ def download_NeXus_zip_archive(url):
                 raise IOError(f"ConnectionError from {url}\n{_exc}")
 
 
+def is_directory_name(name):
+    """
+    decide if this name can be used for a directory inside of the cache directory
+
+    :return bool:
+    """
+    return name not in ("", ".", "..") and pathlib.Path(name).name == name
+
+
 def download_file_set(file_set_name, cache_path, replace=False):
     """
     Download & extract NXDL file set into a subdirectory of ``cache_path``.
@@ -179,6 +188,9 @@ def download_file_set(file_set_name, cache_path, replace=False):
         download_file_set(file_set_name, cache_path, replace=False)
 
     """
+    if not is_directory_name(file_set_name):
+        raise ValueError(f"not a valid file set name: '{file_set_name}'")
+
     NXDL_refs_dir_name = cache_path / file_set_name
     print(f"Downloading file set: {file_set_name} to {NXDL_refs_dir_name} ...")
 
@@ -199,7 +211,10 @@ def download_file_set(file_set_name, cache_path, replace=False):
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
-    download_path = cache_path / zip_content.filelist[0].filename.split("/")[0]
+    zip_root_name = zip_content.filelist[0].filename.split("/")[0]
+    if not is_directory_name(zip_root_name):
+        raise ValueError("unexpected content downloaded")
+    download_path = cache_path / zip_root_name
     allowed_parents = NXDL_categories  # directories
     allowed_parents.append(download_path.name)
 
-- 
2.43.0


From d13e2abf707fabd6d9ed71c1db023963e0307a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 26/45] fix: validate a file with links that have no target

---
 punx/utils.py                                      |  8 ++++++++
 punx/validate.py                                   | 10 +++++++---
 punx/validations/hdf5_group_items_in_base_class.py |  4 +++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 75e8109..c116fb3 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -61,6 +61,14 @@ def string_list_to_hdf5(string_list):
     return [v.encode("utf8") for v in string_list]
 
 
+def getHdf5Member(group, name):
+    """Return the member of the HDF5 group or None if the link has no target"""
+    try:
+        return group[name]
+    except (KeyError, OSError):
+        return None
+
+
 def isHdf5FileObject(obj):
     """Is `obj` an HDF5 File?"""
     return isinstance(obj, h5py.File)
diff --git a/punx/validate.py b/punx/validate.py
index 84f6ded..d1b5f8c 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -310,10 +310,14 @@ class Data_File_Validator(object):
         obj = get_subject(parent, group)
         parent = self.classpaths[obj.classpath][-1]
         for item in group:
-            if utils.isHdf5Group(group[item]):
-                self._group_address_catalog_(parent, group[item])
+            child = utils.getHdf5Member(group, item)
+            if child is None:
+                c = "no object found at link: " + item
+                self.record_finding(obj, "link target: " + item, finding.WARN, c)
+            elif not utils.isHdf5Group(child):
+                get_subject(parent, child)
             else:
-                get_subject(parent, group[item])
+                self._group_address_catalog_(parent, child)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index ad967ff..c594a70 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -119,7 +119,9 @@ def verify_group_attributes(validator, v_item, base_class):
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
-        obj = v_item.h5_object[child_name]
+        obj = utils.getHdf5Member(v_item.h5_object, child_name)
+        if obj is None:
+            continue  # link with no target, reported already
         v_sub_item = validator.addresses[obj.name]
         # TODO: need an algorithm to know if v_item is defined in base class
 
-- 
2.43.0


From 99a3bfe7145c1d59c4e7e7c19424d58bf78dfa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 27/45] fix: validate a file with links to a group that
 contains them

---
 punx/validate.py                                   | 12 ++++++++++++
 punx/validations/hdf5_group_items_in_base_class.py |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index d1b5f8c..6590e3e 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -307,6 +307,15 @@ class Data_File_Validator(object):
                 addClasspath(av)
             return v
 
+        def is_ancestor(v, group):
+            info = h5py.h5o.get_info(group.id)
+            while v is not None:
+                v_info = h5py.h5o.get_info(v.h5_object.id)
+                if (v_info.fileno, v_info.addr) == (info.fileno, info.addr):
+                    return True
+                v = v.parent
+            return False
+
         obj = get_subject(parent, group)
         parent = self.classpaths[obj.classpath][-1]
         for item in group:
@@ -316,6 +325,9 @@ class Data_File_Validator(object):
                 self.record_finding(obj, "link target: " + item, finding.WARN, c)
             elif not utils.isHdf5Group(child):
                 get_subject(parent, child)
+            elif is_ancestor(parent, child):
+                c = "link to a group that contains it: " + item
+                self.record_finding(obj, "link target: " + item, finding.WARN, c)
             else:
                 self._group_address_catalog_(parent, child)
 
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index c594a70..0033831 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -122,7 +122,9 @@ def verify_group_children(validator, v_item, base_class):
         obj = utils.getHdf5Member(v_item.h5_object, child_name)
         if obj is None:
             continue  # link with no target, reported already
-        v_sub_item = validator.addresses[obj.name]
+        v_sub_item = validator.addresses.get(obj.name)
+        if v_sub_item is None:
+            continue  # link to a group that contains it, reported already
         # TODO: need an algorithm to know if v_item is defined in base class
 
         if utils.isNeXusDataset(obj):
-- 
2.43.0


From 6a838dddf9d09f896c93bba273b2a49df6a1e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 28/45] fix: show the tree of a file when @NX_class is not text

---
 punx/h5tree.py | 15 ++++++++-------
 punx/utils.py  |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 8eb46f9..47eff14 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -107,13 +107,14 @@ class Hdf5TreeView(object):
         """
         s = []
         nxclass = obj.attrs.get("NX_class", "")
-        if len(nxclass) > 0:
-            if isinstance(
-                nxclass, numpy.ndarray
-            ):  # attribute reported as DATATYPE SIMPLE
-                nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
-            nxclass = ":" + utils.decode_byte_string(nxclass)
-        s += [indentation + name + nxclass]
+        if isinstance(nxclass, numpy.ndarray):  # attribute reported as DATATYPE SIMPLE
+            # convert as if DATATYPE SCALAR
+            nxclass = nxclass.flat[0] if nxclass.size > 0 else ""
+        nxclass = utils.decode_byte_string(nxclass)
+        if isinstance(nxclass, str) and len(nxclass) > 0:
+            s += [indentation + name + ":" + nxclass]
+        else:
+            s += [indentation + name]
         extra_attrs = {}
         if isinstance(md, h5py.ExternalLink):
             # also report external group links (file & path)
diff --git a/punx/utils.py b/punx/utils.py
index c116fb3..7531b8c 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -140,7 +140,7 @@ def isNeXusGroup(obj, NXtype):
     if isHdf5Group(obj):
         nxclass = obj.attrs.get("NX_class", None)
         if isinstance(nxclass, numpy.ndarray):
-            nxclass = nxclass[0]
+            nxclass = nxclass.flat[0] if nxclass.size > 0 else None
         nxclass = decode_byte_string(nxclass)
     return nxclass == str(NXtype)
 
-- 
2.43.0


From 67909846449e1150b898cf4d61bfffba323b3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 29/45] fix: show the tree of a file with a named datatype

---
 punx/h5tree.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 47eff14..c4d3524 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -166,14 +166,9 @@ class Hdf5TreeView(object):
                         # When "classref" is defined, then external data is available
                         s += [self._renderSingleAttribute(indentation + "  ", "file", link_info.filename)]
                         s += [self._renderSingleAttribute(indentation + "  ", "path", link_info.path)]
-                else:
-                    msg = (
-                        "unidentified %s: %s, %s",
-                        itemname,
-                        repr(classref),
-                        repr(link_info),
-                    )
-                    raise Exception(msg)
+                else:  # such as a named datatype
+                    s += ["%s  %s: %s" % (indentation, itemname, type(value).__name__)]
+                    s += self._renderAttributes(value, indentation + "  ")
 
         for value, itemname, md in groups:  # show things that look like groups
             g = self._renderGroup(value, itemname, indentation + "  ", md)
-- 
2.43.0


From 58c1e4ead07e9fa278aa3380438f35c96da8f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 30/45] fix: show the tree of a file with empty datasets or
 arrays of text

---
 punx/h5tree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index c4d3524..08f7537 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -213,11 +213,14 @@ class Hdf5TreeView(object):
                 if target_addr != dset.name:
                     return self._renderLinkedObject(dset, name, indentation)
         txType = self._renderDsType(dset)
-        txShape = self._renderDsShape(dset)
+        txShape = "" if shape is None else self._renderDsShape(dset)
         s = []
-        if dset.dtype.kind == "S":
+        if shape is None:  # no data
+            s += ["%s%s:%s = " % (indentation, name, txType)]
+            s += self._renderAttributes(dset, indentation)
+        elif dset.dtype.kind == "S":
             if isinstance(dset[()], numpy.ndarray):
-                ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()]]
+                ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()].flat]
                 if len(ss) > 1:
                     value = " = [%s]" % ", ".join(ss)
                 else:
@@ -270,7 +273,7 @@ class Hdf5TreeView(object):
         t = str(obj.dtype)
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if obj.dtype.kind == "S":  # fixed-length string
-            if len(obj.shape):
+            if obj.shape:
                 t = "char[%s]" % ",".join([str(o.dtype.itemsize) for o in obj])
             else:
                 t = "CHAR"
-- 
2.43.0


From bf490de3d63a41d9fea6e8b5ffccaaf9ae45711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 31/45] fix: show the tree of a file with links to a group that
 contains them

---
 punx/h5tree.py   | 11 +++++++++--
 punx/utils.py    | 10 ++++++++++
 punx/validate.py |  8 +++-----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 08f7537..5d07d2b 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -92,7 +92,7 @@ class Hdf5TreeView(object):
             tree_string_list = self._renderGroup(f, txt, indentation="")
         return tree_string_list
 
-    def _renderGroup(self, obj, name, indentation="  ", md=None):
+    def _renderGroup(self, obj, name, indentation="  ", md=None, ancestors=()):
         """return a [formatted_string] with the contents of the group
 
         Parameters
@@ -104,6 +104,8 @@ class Hdf5TreeView(object):
             If group was an ExternalLink, then keys ``filename`` and ``path``
             describe the external link point.  If not ExternalLink, the dictionary
             contents will not be used.
+        ancestors : tuple
+            the groups that contain this one, starting at the root
         """
         s = []
         nxclass = obj.attrs.get("NX_class", "")
@@ -171,7 +173,12 @@ class Hdf5TreeView(object):
                     s += self._renderAttributes(value, indentation + "  ")
 
         for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(value, itemname, indentation + "  ", md)
+            if utils.isHdf5Ancestor(value, (*ancestors, obj)):
+                s += ["%s  %s: --> %s" % (indentation, itemname, value.name)]
+                continue
+            g = self._renderGroup(
+                value, itemname, indentation + "  ", md, (*ancestors, obj)
+            )
             s += g
 
         return s
diff --git a/punx/utils.py b/punx/utils.py
index 7531b8c..f5032f7 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -69,6 +69,16 @@ def getHdf5Member(group, name):
         return None
 
 
+def isHdf5Ancestor(group, ancestors):
+    """Is `group` (the target of a link) one of the groups that contain it?"""
+    info = h5py.h5o.get_info(group.id)
+    for obj in ancestors:
+        other = h5py.h5o.get_info(obj.id)
+        if (other.fileno, other.addr) == (info.fileno, info.addr):
+            return True
+    return False
+
+
 def isHdf5FileObject(obj):
     """Is `obj` an HDF5 File?"""
     return isinstance(obj, h5py.File)
diff --git a/punx/validate.py b/punx/validate.py
index 6590e3e..b9338e2 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -308,13 +308,11 @@ class Data_File_Validator(object):
             return v
 
         def is_ancestor(v, group):
-            info = h5py.h5o.get_info(group.id)
+            ancestors = []
             while v is not None:
-                v_info = h5py.h5o.get_info(v.h5_object.id)
-                if (v_info.fileno, v_info.addr) == (info.fileno, info.addr):
-                    return True
+                ancestors.append(v.h5_object)
                 v = v.parent
-            return False
+            return utils.isHdf5Ancestor(group, ancestors)
 
         obj = get_subject(parent, group)
         parent = self.classpaths[obj.classpath][-1]
-- 
2.43.0


From 1ea872a0a0f2610f81ad08d6d61dda3239cc20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 32/45] fix: the parent of an item in a non-NeXus group is that
 group

---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index b9338e2..ee80b0c 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -315,7 +315,7 @@ class Data_File_Validator(object):
             return utils.isHdf5Ancestor(group, ancestors)
 
         obj = get_subject(parent, group)
-        parent = self.classpaths[obj.classpath][-1]
+        parent = obj
         for item in group:
             child = utils.getHdf5Member(group, item)
             if child is None:
-- 
2.43.0


From f255f5456d22abe90eb53a3ae608dda33c82df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 33/45] fix: the default plot finding does not depend on files
 validated before

---
 punx/nxdl_manager.py                               | 2 ++
 punx/validations/base_class_items_in_hdf5_group.py | 7 -------
 punx/validations/default_plot.py                   | 9 +++++----
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index e1dfeb5..1993cfc 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -637,6 +637,8 @@ class NXDL__group(NXDL__base):
             if k not in ("name", "type"):
                 # https://github.com/prjemian/punx/issues/165
                 self.attributes[k] = v  # FIXME: should be NXDL__attribute instance
+        required = self.nxdl_definition.category in ("applications",)
+        self.minOccurs = int(self.attributes.get("minOccurs", 1 if required else 0))
         self.parse_groups(xml_node)
         self.parse_fields(xml_node)
         self.parse_links(xml_node)
diff --git a/punx/validations/base_class_items_in_hdf5_group.py b/punx/validations/base_class_items_in_hdf5_group.py
index 221e0c9..c433598 100644
--- a/punx/validations/base_class_items_in_hdf5_group.py
+++ b/punx/validations/base_class_items_in_hdf5_group.py
@@ -47,13 +47,6 @@ def verify(validator, v_item, base_class):
         t += " in " + v_item.h5_address + "/" + group_name
         validator.record_finding(v_item, test, f, t)
 
-        # ---------- this code is in the wrong place: to nxdl_manager -----
-        minOccurs = 0
-        if hasattr(base_class, "definition"):  # application definition
-            minOccurs = 1
-        minOccurs = int(group_object.attributes.get("minOccurs", minOccurs))
-        group_object.minOccurs = minOccurs
-        # ---------------------------------------------------------
         # FIXME: report if required item is present, name could be flexible
 
     for link_name, link_obj in base_class.links.items():  # noqa
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index f02a733..43fb917 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -37,10 +37,11 @@ def verify(validator):
     if status is None:
         c = "no default plot described"
         data_group = validator.manager.classes["NXentry"].groups["data"]
-        if hasattr(data_group, "minOccurs"):
-            minOccurs = data_group.minOccurs
-        else:
-            minOccurs = 1
+        minOccurs = 1
+        for v_item in validator.addresses.values():
+            if getattr(v_item, "nx_class", None) == "NXentry":
+                minOccurs = data_group.minOccurs
+                break
         if minOccurs > 0:
             status = finding.ERROR
         else:
-- 
2.43.0


From 80ae82d1b5eef3c4d9314f0e7602bbd46bf39fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 34/45] fix: no unassigned names when an item name cannot be
 checked

---
 punx/validations/item_name.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index e0e87d7..c0abd18 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -108,6 +108,7 @@ def handle_NX_class(validator, v_item):
         patterns[key + "-" + str(i)] = p
 
     status = finding.ERROR
+    p = "none available"
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
             validator.regexp_cache[k] = re.compile(p)
@@ -179,4 +180,5 @@ def handle_groups_and_fields(validator, v_item):
             status = finding.NOTE
     except UnicodeDecodeError:  # TODO: see issue #37
         status = finding.ERROR
+        k = "name could not be decoded"
     validator.record_finding(v_item, TEST_NAME, status, k)
-- 
2.43.0


From d59db14d306d2c2df1e7d23530bda3beabdf673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:34 +0000
Subject: [PATCH 35/45] fix: text that is not UTF-8 is decoded however it is
 stored

---
 punx/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index f5032f7..c1bde85 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -43,13 +43,15 @@ def decode_byte_string(value):
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
-            if value.dtype.kind == 'S':
-                value = numpy.char.decode(value, "utf8", "replace")
-            return value.astype('U').tolist()
+            text = [str(decode_byte_string(v)) for v in value.flat]
+            return numpy.array(text).reshape(value.shape).tolist()
         else:
             return None
     elif isinstance(value, (bytes, numpy.bytes_)):
         return value.decode("utf8", "replace")
+    elif isinstance(value, str):
+        # h5py marks the bytes that are not UTF-8 with surrogates
+        return value.encode("utf8", "surrogateescape").decode("utf8", "replace")
     else:
         return value
 
-- 
2.43.0


From 358cbc2ef1f4846373221c7f7b3efea2d1e42343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:34 +0000
Subject: [PATCH 36/45] fix: @target that is not text names no other address

---
 punx/validations/item_name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index c0abd18..efbba6b 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -36,7 +36,7 @@ def isNeXusLinkTarget(v_item):
     if "target" in v_item.h5_object.attrs:
         source_name = utils.decode_byte_string(v_item.h5_address)
         target_name = utils.decode_byte_string(v_item.h5_object.attrs["target"])
-        return target_name != source_name
+        return isinstance(target_name, str) and target_name != source_name
     return False  # no @target attribute at all
 
 
-- 
2.43.0


From 8c1dfbae4a0739bee49cb2a27b5e1a9ee4e02475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:34 +0000
Subject: [PATCH 37/45] fix: @signal of digits which are no number

---
 punx/validations/attribute.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index d8cf47e..36962a4 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -124,9 +124,11 @@ def signal_handler(validator, v_item):
     """
     signal = utils.decode_byte_string(v_item.h5_object)
     if utils.isNeXusDataset(v_item.parent.h5_object):
-        if (
-            str(signal).isdigit() and int(signal) == 1
-        ):  # could error if signal is other text!
+        try:
+            plottable = str(signal).isdigit() and int(signal) == 1
+        except ValueError:
+            plottable = False  # digits which int() does not read
+        if plottable:
             status = finding.OK
             c = "found plottable data marker"
         else:
-- 
2.43.0


From 201d2465a80ce832fc3450e2ebe1b0d1cec413ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 38/45] fix: objects of other files have the address of the
 link to them

---
 punx/validate.py                              | 26 +++++++++++++------
 punx/validations/application_definition.py    |  4 ++-
 punx/validations/default_plot.py              |  6 ++---
 .../hdf5_group_items_in_base_class.py         |  2 +-
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index ee80b0c..f540321 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -285,9 +285,11 @@ class Data_File_Validator(object):
         """
         self._group_address_catalog_(None, self.h5)
 
-    def _group_address_catalog_(self, parent, group):
+    def _group_address_catalog_(self, parent, group, name=None):
         """
         catalog this group's address and all its contents
+
+        :param str name: name of the group in its parent (default: root)
         """
 
         def addClasspath(v):
@@ -296,8 +298,8 @@ class Data_File_Validator(object):
             self.classpaths[v.classpath].append(v)
             logger.log(INFORMATIVE, "NeXus classpath: " + v.classpath)
 
-        def get_subject(parent, o):
-            v = ValidationItem(parent, o)
+        def get_subject(parent, o, name=None):
+            v = ValidationItem(parent, o, link_name=name)
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
@@ -314,7 +316,7 @@ class Data_File_Validator(object):
                 v = v.parent
             return utils.isHdf5Ancestor(group, ancestors)
 
-        obj = get_subject(parent, group)
+        obj = get_subject(parent, group, name)
         parent = obj
         for item in group:
             child = utils.getHdf5Member(group, item)
@@ -322,12 +324,12 @@ class Data_File_Validator(object):
                 c = "no object found at link: " + item
                 self.record_finding(obj, "link target: " + item, finding.WARN, c)
             elif not utils.isHdf5Group(child):
-                get_subject(parent, child)
+                get_subject(parent, child, item)
             elif is_ancestor(parent, child):
                 c = "link to a group that contains it: " + item
                 self.record_finding(obj, "link target: " + item, finding.WARN, c)
             else:
-                self._group_address_catalog_(parent, child)
+                self._group_address_catalog_(parent, child, item)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
@@ -426,14 +428,18 @@ class ValidationItem(object):
 
     """HDF5 data file object for validation"""
 
-    def __init__(self, parent, obj, attribute_name=None):
+    def __init__(self, parent, obj, attribute_name=None, link_name=None):
         assert isinstance(parent, (ValidationItem, type(None)))
         self.parent = parent
         self.validations = {}  # validation findings go here
         self.h5_object = obj
         if hasattr(obj, "name"):
             self.h5_address = obj.name
-            if obj.name == SLASH:
+            if link_name is not None:
+                # obj.name is an address in another file, if the link is external
+                self.h5_address = parent.member_address(link_name)
+                self.name = link_name
+            elif obj.name == SLASH:
                 self.name = SLASH
             else:
                 self.name = obj.name.split(SLASH)[-1]
@@ -459,6 +465,10 @@ class ValidationItem(object):
         except Exception:
             return object.__str__(self, *args, **kwargs)
 
+    def member_address(self, name):
+        """address (in the file that is validated) of this member of the group"""
+        return self.h5_address.rstrip(SLASH) + SLASH + name
+
     def identify_object_type(self, *args, **kwargs):
         import h5py._hl
 
diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 7a426e4..083d4af 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -69,7 +69,9 @@ def verify(validator, v_item):
             msg += " not"
         msg += " found"
         # report a missing field with the group that should have it
-        v_obj = v_item if h5_obj is None else ValidationItem(v_item, h5_obj)
+        v_obj = v_item
+        if h5_obj is not None:
+            v_obj = ValidationItem(v_item, h5_obj, link_name=field)
         validator.record_finding(v_obj, "NXDL field", status, msg)
 
         if len(spec.enumerations) > 0:
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 43fb917..b11ce46 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -65,9 +65,9 @@ def default_plot_v3(validator):
         "create the HDF5 address"
         if isinstance(v_item.h5_object, str):
             parent = v_item.parent or v_item
-            addr = parent.h5_object.name
+            addr = parent.h5_address
         else:
-            addr = v_item.h5_object.name
+            addr = v_item.h5_address
         if not addr.endswith("/"):
             addr += "/"
         addr += str(utils.decode_byte_string(pointer))
@@ -79,7 +79,7 @@ def default_plot_v3(validator):
         if pointer is None:
             return False
         addr = build_h5_address(v_item, pointer)
-        if addr not in v_item.h5_object:
+        if addr not in validator.h5:
             return False
         return v_target == addr
 
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 0033831..9a8c13e 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -122,7 +122,7 @@ def verify_group_children(validator, v_item, base_class):
         obj = utils.getHdf5Member(v_item.h5_object, child_name)
         if obj is None:
             continue  # link with no target, reported already
-        v_sub_item = validator.addresses.get(obj.name)
+        v_sub_item = validator.addresses.get(v_item.member_address(child_name))
         if v_sub_item is None:
             continue  # link to a group that contains it, reported already
         # TODO: need an algorithm to know if v_item is defined in base class
-- 
2.43.0


From 7cfc5e448ef4264c4b419043f19ce9476af1004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:25 +0000
Subject: [PATCH 39/45] fix: the tree shows an external link to a file that is
 not HDF5 instead of failing

---
 punx/h5tree.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 5d07d2b..87ac224 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -127,22 +127,18 @@ class Hdf5TreeView(object):
         groups = []
         for itemname in sorted(obj):
             link_info = obj.get(itemname, getlink=True)
-            # prevent fails of obj.get(itemname, getclass=True)
-            # for external links if file is not available
-            if (
-                isinstance(link_info, h5py.ExternalLink)
-                and not os.path.exists(link_info.filename)
-            ):
-                classref = None
-                logger.debug(
-                    "FileNotFound: external file=%s  external HDF5 addr=%s",
-                    link_info.filename, link_info.path
-                )
-            elif isinstance(link_info, h5py.SoftLink):
-                classref = None
+            classref = None
+            if isinstance(link_info, h5py.SoftLink):
                 logger.debug("SoftLink: HDF5 addr=%s", link_info.path)
             else:
-                classref = obj.get(itemname, getclass=True)
+                try:
+                    classref = obj.get(itemname, getclass=True)
+                except (KeyError, OSError, RuntimeError):
+                    # such as an external file which is not HDF5
+                    logger.debug(
+                        "no access: external file=%s  external HDF5 addr=%s",
+                        getattr(link_info, "filename", None), getattr(link_info, "path", None)
+                    )
 
             if classref is None:
                 if isinstance(link_info, h5py.SoftLink):
-- 
2.43.0


From be10f06fc56e335366fb073f147199621e8e88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:21 +0000
Subject: [PATCH 40/45] fix: the tree shows the value of a scalar dataset of
 numbers

---
 punx/h5tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 87ac224..eb22196 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -237,8 +237,8 @@ class Hdf5TreeView(object):
             value = " = %s" % str(dset[()])
             s += ["%s%s:%s%s" % (indentation, name, txType, value)]
             s += self._renderAttributes(dset, indentation)
-        elif shape == (1,):
-            value = " = %s" % str(dset[0])
+        elif shape in ((), (1,)):
+            value = " = %s" % str(dset[0] if shape else dset[()])
             s += ["%s%s:%s%s%s" % (indentation, name, txType, txShape, value)]
             s += self._renderAttributes(dset, indentation)
         else:
@@ -292,7 +292,7 @@ class Hdf5TreeView(object):
         l = []
         for dim in s:
             l.append(str(dim))
-        if l == ["1"]:
+        if l in ([], ["1"]):
             result = ""
         else:
             result = "[%s]" % ",".join(l)
-- 
2.43.0


From 028257f8fd0abcb984e5e32f5cc3b77f90ad8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:00 +0000
Subject: [PATCH 41/45] fix: a link that leads to itself stopped the validation
 and the test for NeXus files

---
 punx/utils.py                                   | 17 +++++++++++------
 punx/validations/attribute.py                   | 10 ++++++----
 punx/validations/default_plot.py                |  4 ++--
 .../hdf5_group_items_in_base_class.py           |  2 +-
 4 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index c1bde85..a8c833b 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -67,10 +67,18 @@ def getHdf5Member(group, name):
     """Return the member of the HDF5 group or None if the link has no target"""
     try:
         return group[name]
-    except (KeyError, OSError):
+    except (KeyError, OSError, RuntimeError):
         return None
 
 
+def isHdf5Member(group, name):
+    """Is `name` (which may be a path) the name of something in the HDF5 group?"""
+    try:
+        return name in group
+    except RuntimeError:  # the path goes through a link that leads to itself
+        return False
+
+
 def isHdf5Ancestor(group, ancestors):
     """Is `group` (the target of a link) one of the groups that contain it?"""
     info = h5py.h5o.get_info(group.id)
@@ -138,11 +146,8 @@ def isNeXusFile(filename):
     with h5py.File(filename, "r") as root:
         if isHdf5FileObject(root):
             for item in root:
-                try:
-                    if isNeXusGroup(root[item], "NXentry"):
-                        return True
-                except KeyError:
-                    pass
+                if isNeXusGroup(getHdf5Member(root, item), "NXentry"):
+                    return True
     return False
 
 
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 36962a4..51c3f92 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -82,7 +82,8 @@ def axes_handler(validator, v_item):
 
         # check axis_name names local field (in this group)
         test_name = f"axes['{axis_name}'] exists"
-        if isinstance(axis_name, str) and h5parent.get(axis_name) is not None:
+        if isinstance(axis_name, str) and utils.getHdf5Member(
+            h5parent, axis_name) is not None:
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -148,7 +149,8 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = isinstance(signal, str) and signal in v_item.parent.h5_object
+        test = isinstance(signal, str) and utils.isHdf5Member(
+            v_item.parent.h5_object, signal)
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
         c += ": @signal=" + str(signal)
@@ -176,13 +178,13 @@ def target_handler(validator, v_item):
             return
         else:
             addr += "/" + p
-            if addr not in validator.h5:
+            if not utils.isHdf5Member(validator.h5, addr):
                 status = finding.ERROR
                 c = "partial HDF5 address not found in file: " + addr
                 validator.record_finding(v_item, TEST_NAME, status, c)
                 return
 
-    test = target in validator.h5
+    test = utils.isHdf5Member(validator.h5, target)
     status = finding.TF_RESULT[test]
     c = {True: "found", False: "not found"}[test]
     c += ": @target=" + target
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index b11ce46..e75df09 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -79,7 +79,7 @@ def default_plot_v3(validator):
         if pointer is None:
             return False
         addr = build_h5_address(v_item, pointer)
-        if addr not in validator.h5:
+        if not utils.isHdf5Member(validator.h5, addr):
             return False
         return v_target == addr
 
@@ -103,7 +103,7 @@ def default_plot_v3(validator):
             c = "field described by @signal does not exist"
             validator.record_finding(v_item, test_name + ", NXdata@signal", status, c)
             return None  # fail to identify as plottable since @signal is misleading
-        t4 = utils.isNeXusDataset(validator.h5.get(signal_h5_addr))
+        t4 = utils.isNeXusDataset(utils.getHdf5Member(validator.h5, signal_h5_addr))
         if t3 and t4:
             status = finding.OK
             c = "correct default plot setup in /NXentry/NXdata"
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 9a8c13e..670973d 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = isinstance(v, str) and v in v_item.h5_object
+    found = isinstance(v, str) and utils.isHdf5Member(v_item.h5_object, v)
     if found:
         status = finding.OK
         c = "found"
-- 
2.43.0


From 6ebaf5f41cfa043328884fa81b5a5c3e31390adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:27 +0000
Subject: [PATCH 42/45] fix: a field of an application definition that is a
 link to itself stopped the validation

---
 punx/validations/application_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 083d4af..c43de69 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -63,7 +63,7 @@ def verify(validator, v_item):
     for field, spec in ad_entry.fields.items():
 
         msg = "%s:%s" % (ad_name, field)
-        h5_obj = v_item.h5_object.get(field)
+        h5_obj = utils.getHdf5Member(v_item.h5_object, field)
         status = finding.TF_RESULT[h5_obj is not None]
         if h5_obj is None:
             msg += " not"
-- 
2.43.0


From 5e2ec68876087fed52d7ced5b29726a0d033fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:44 +0000
Subject: [PATCH 43/45] fix: a group whose NX_class contains a path delimiter
 stopped the validation

---
 punx/validate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index f540321..9434ec9 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -526,7 +526,11 @@ class ValidationItem(object):
                     nx_class = utils.decode_byte_string(
                         h5_obj.attrs.get("NX_class"))
 
-                    if isinstance(nx_class, str) and nx_class.startswith("NX"):
+                    if (
+                        isinstance(nx_class, str)
+                        and nx_class.startswith("NX")
+                        and not any(c in nx_class for c in "/@")  # path delimiters
+                    ):
                         self.nx_class = nx_class  # only for groups
                         logger.log(
                             INFORMATIVE,
-- 
2.43.0


From d3b1af379a0192b62d0e620f415a4b2b206c00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:15 +0000
Subject: [PATCH 44/45] fix: the unit types of a schema are the members of the
 union that declares them

anyUnitsAttr is declared by a xs:union, its values were always empty.
The names in a union or list can be looked at more than once.
---
 punx/schema_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index d77e8cb..180d010 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -195,7 +195,7 @@ class SchemaManager(object):
                     db[obj.name] = obj
 
         # re-arrange
-        units = list(db["anyUnitsAttr"].values or [])
+        units = list(db["anyUnitsAttr"].union or [])
         del db["anyUnitsAttr"]
         del db["primitiveType"]
 
@@ -235,7 +235,7 @@ class Schema_nxdlType(object):
             elif node.tag.endswith("}annotation"):
                 pass
             elif node.tag.endswith("}list"):
-                self.values = map(strip_ns, [node.attrib["itemType"]])
+                self.values = [strip_ns(node.attrib["itemType"])]
             elif node.tag.endswith("}restriction"):
                 self.restriction = strip_ns(node.attrib["base"])
                 self.values = []
@@ -245,7 +245,7 @@ class Schema_nxdlType(object):
                     elif subnode.tag.endswith("}enumeration"):
                         self.values.append(subnode.attrib["value"])
             elif node.tag.endswith("}union"):
-                self.union = map(strip_ns, node.attrib["memberTypes"].split())
+                self.union = [strip_ns(ref) for ref in node.attrib["memberTypes"].split()]
             else:
                 raise_error(node, "unhandled tag=", node.tag)
 
-- 
2.43.0


From bc047f0682fe63c5b513ff0fa35f263047f61a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:15 +0000
Subject: [PATCH 45/45] fix: a boolean attribute of the schema may have no
 default, or default 1

---
 punx/schema_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 180d010..dbf6779 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -442,7 +442,7 @@ class Schema_Attribute(_Mixin):
         self.type = xml_obj.attrib.get("type", "str")
         defalt = xml_obj.attrib.get("default")
         if self.type in ("nx:NX_BOOLEAN",):
-            self.default_value = defalt.lower() in ("true", "y", 1)
+            self.default_value = (defalt or "").lower() in ("true", "y", "1")
         else:
             self.default_value = defalt
 
-- 
2.43.0

