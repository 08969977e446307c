From f9a9d5dc4804bdb5db877ab254add75872e9fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 01/33] fix: find skips items lacking the key and leaves them
 unchanged

---
 mappyfile/dictutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index bc6e1ee..79468c1 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -78,7 +78,8 @@ def find(lst: list[dict], key: str, value: Any) -> dict | None:
         cmp = mappyfile.find(d["layers"], "name", "Layer2")
         assert cmp["name"] == "Layer2"
     """
-    return next((item for item in lst if item[key.lower()] == value), None)
+    key = key.lower()
+    return next((item for item in lst if key in item and item[key] == value), None)
 
 
 def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
-- 
2.43.0


From 072e1568f87c5ca65a4d2e7cf1194810795ef1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 02/33] fix: findall matches whole values and leaves items
 lacking the key unchanged

---
 mappyfile/dictutils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 79468c1..78467eb 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -137,7 +137,11 @@ def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
         layers = mappyfile.findall(d["layers"], "group", "test")
         assert len(layers) == 2
     """
-    return [item for item in lst if item[key.lower()] and item[key.lower()] in value]
+    key = key.lower()
+    # a string or a number is a single value to compare with, rather than a list of values
+    if isinstance(value, str) or not hasattr(value, "__contains__"):
+        value = [value]
+    return [item for item in lst if key in item and item[key] in value]
 
 
 def findunique(lst, key):
-- 
2.43.0


From 87743dde50f4c6f38d127540613e8cf02d8a614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 03/33] fix: findkey does not add missing keys to the
 dictionary it searches

---
 mappyfile/dictutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 78467eb..be7d122 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -28,6 +28,7 @@
 # =================================================================
 
 from __future__ import annotations
+import copy
 from typing import Any
 from itertools import zip_longest
 
@@ -245,6 +246,9 @@ def findkey(d: dict, *keys: list[Any]) -> dict:
     if keys:
         keys_list = list(keys)
         search_key = keys_list.pop(0)
+        if isinstance(d, dict) and search_key not in d:
+            # reading a missing key can create it, so read from a copy
+            d = copy.copy(d)
         return findkey(d[search_key], *keys_list)
 
     return d
-- 
2.43.0


From 20f2b23842367669fc8ecd6d1fc0c8ad9e4c0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 04/33] fix: update with a delete marker for a key that does
 not exist leaves the dictionary unchanged

---
 mappyfile/dictutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index be7d122..70d422e 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -290,7 +290,7 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
         if isinstance(v, dict):
             if v.get("__delete__", False):
                 # allow a __delete__ property to be set to delete objects
-                del d1[k]
+                d1.pop(k, None)
             else:
                 d1[k] = update(d1.get(k, {}), v, overwrite)
         elif isinstance(v, (tuple, list)) and all(
@@ -317,8 +317,8 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
                     new_list.append(d)
             d1[k] = new_list
         else:
-            if k in d1 and v == "__delete__":
-                del d1[k]
+            if v == "__delete__":
+                d1.pop(k, None)
             else:
                 if overwrite is True or k not in d1:
                     d1[k] = v
-- 
2.43.0


From 1dcdc2e739f2554ad933102d38c6b699bacbef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 05/33] fix: update accepts any keyword name, including e

---
 mappyfile/ordereddict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappyfile/ordereddict.py b/mappyfile/ordereddict.py
index ab27b0d..df9869c 100644
--- a/mappyfile/ordereddict.py
+++ b/mappyfile/ordereddict.py
@@ -138,10 +138,10 @@ class CaseInsensitiveOrderedDict(DefaultOrderedDict):
         # pylint: disable=protected-access
         return super().setdefault(self.__class__._k(key), *args, **kwargs)
 
-    def update(self, e=None, **f):
+    def update(self, e=None, /, **f):
         if e is not None:
             super().update(self.__class__(CaseInsensitiveOrderedDict, e))
-        super().update(self.__class__(CaseInsensitiveOrderedDict, **f))
+        super().update(self.__class__(CaseInsensitiveOrderedDict, f))
 
     def _convert_keys(self):
         for k in list(self.keys()):
-- 
2.43.0


From afc43a31ce0a54103377dada6cad4a8a605956bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 06/33] fix: INCLUDE file names in quotes can contain spaces
 and #, a directive without a name is a parse error

---
 mappyfile/parser.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index ef2f081..56d1e66 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import os
+import re
 import logging
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
@@ -66,6 +67,12 @@ SYMBOL_ATTRIBUTES = {
     "TRANSPARENT",
 }
 
+# an INCLUDE keyword followed by a file name, which can contain spaces and # when in quotes
+INCLUDE_DIRECTIVE = re.compile(
+    r"""\s*include(?:\s*(?P<quote>["'])(?P<quoted>.*?)(?P=quote)|\s+(?P<bare>[^\s#]+))""",
+    re.IGNORECASE,
+)
+
 
 class Parser:
     def __init__(
@@ -94,20 +101,23 @@ class Parser:
 
         return Lark.open("mapfile.lark", rel_to=__file__, parser="lalr", **extra_args)
 
-    def _get_include_filename(self, line: str) -> str:
-        if "#" in line:
-            # remove any comments on the same line
-            line = line.split("#")[0]
+    def _get_include_filename(self, line: str) -> str | None:
+        match = INCLUDE_DIRECTIVE.match(line)
+        if not match:
+            # no file name - leave the line to be rejected by the parser
+            return None
 
-        include_pairs = line.split()
-        if len(include_pairs) > 2:
+        # remove any comments on the same line
+        remainder = line[match.end() :].split("#")[0]
+        if remainder.strip():
             log.warning(
                 "Multiple include files have been found on the same line. "
                 "Only the first will be used. "
             )
-        inc_file_path = include_pairs[1]
 
-        return inc_file_path.strip("'").strip('"')
+        if match.group("quote"):
+            return match.group("quoted")
+        return match.group("bare").strip("'").strip('"')
 
     def load_includes(
         self, text: str, fn: str | None = None, _nested_includes: int = 0
@@ -120,11 +130,13 @@ class Parser:
         includes = {}
         for idx, l in enumerate(lines):
             if l.strip().lower().startswith("include"):
+                inc_file_path = self._get_include_filename(l)
+                if inc_file_path is None:
+                    continue
+
                 if _nested_includes == 5:
                     raise ValueError("Maximum nested include exceeded! (MaxNested=5)")
 
-                inc_file_path = self._get_include_filename(l)
-
                 if not os.path.isabs(inc_file_path):
                     inc_file_path = os.path.abspath(
                         os.path.join(os.path.dirname(fn), inc_file_path)
-- 
2.43.0


From d6e78d1b8b8ac298487383e909b7d8d5751f9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 07/33] fix: load resolves includes against the working
 directory when the file has no path

---
 mappyfile/parser.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 56d1e66..1343932 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -191,12 +191,10 @@ class Parser:
 
     def load(self, fp: IO[str]) -> Any:
         text = fp.read()
-        if hasattr(fp, "name"):
-            fn = (
-                fp.name
-            )  # name is a read-only attribute and may not be present on all file-like objects.
-        else:
-            fn = None
+        # name is a read-only attribute and may not be present on all file-like objects.
+        # For files opened from a file descriptor it is an integer rather than a path
+        fn = getattr(fp, "name", None)
+        fn = os.fsdecode(fn) if isinstance(fn, (str, bytes, os.PathLike)) else None
         return self.parse(text, fn)
 
     def open_file(self, fn: str):
-- 
2.43.0


From 82ee5ac5c3962658e2b67306d1708fbc80970691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 08/33] fix: a GRID block at the root of a partial Mapfile is
 accepted

---
 mappyfile/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 1343932..654a590 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -234,7 +234,8 @@ class Parser:
                         t.type = "UNQUOTED_STRING_VALUE"
                 elif t.type == "GRID":
                     # Unquoted 'GRID' coming after NAME is always a value, not a composite type
-                    if ip.parser_state.value_stack[-1] == "NAME":
+                    value_stack = ip.parser_state.value_stack
+                    if value_stack and value_stack[-1] == "NAME":
                         t.type = "UNQUOTED_STRING_VALUE"
 
             tree = ip.resume_parse()
-- 
2.43.0


From 731d418567bd583888dae5ed9795e359ebf35d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 09/33] fix: unquoted absolute paths are not split into a
 regular expression and a rest

---
 mappyfile/mapfile.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 6144ea4..3cfdb8d 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -159,7 +159,8 @@ ESCAPED_STRING: /`.*?`i?/
 
 //UNQUOTED_NUMERIC_STRING: /[a-z_][a-z0-9_\-]*/i
 
-REGEXP1.2: /\/.*?\/i?/
+// an unquoted absolute path such as /a/b.map is not a regular expression
+REGEXP1.2: /\/.*?\/i?(?![a-zA-Z0-9_.\/-])/
 REGEXP2: /\\\\.*?\\\\i?/
 
 RUNTIME_VAR: /%.*?%/
-- 
2.43.0


From 5325e1709e4fe9c800ef68b60ce28de9ba50475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 10/33] fix: validate reports an error within a list value
 instead of raising TypeError

---
 mappyfile/validator.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index c699e8f..faa35fb 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -210,6 +210,14 @@ class Validator:
         See https://github.com/Julian/jsonschema/issues/119
         """
 
+        # an error on a single value within a list, such as the numbers in SIZE or POINTS,
+        # is an error in the keyword itself
+        index = 0
+        while path and isinstance(path[-1], int):
+            if isinstance(dictutils.findkey(rootdict, *path), dict):
+                break
+            index, path = path[-1], path[:-1]
+
         if not path:
             # error applies to the root type
             d = rootdict
@@ -243,6 +251,9 @@ class Validator:
                 pd = d["__position__"]
             else:
                 pd = d["__position__"][key]
+                if isinstance(pd, list):
+                    # repeated keywords have a position for each of their values
+                    pd = pd[min(index, len(pd) - 1)]
 
             error_dict["line"] = pd.get("line")
             error_dict["column"] = pd.get("column")
-- 
2.43.0


From 6284fb90c9aa51e038e7698ebd025df841e45b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 11/33] fix: validate command exits with a non-zero status for
 unparseable files and for 256 errors

---
 mappyfile/cli.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 0fd14df..78ee28c 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -191,8 +191,8 @@ def validate(_, mapfiles, expand, version):
 
     The MAPFILES argument is a list of paths, either to individual Mapfiles, or a folders containing Mapfiles.
     Wildcards are supported (natively on Linux, and up to one level deep on Windows).
-    Validation errors are reported to the console. The program returns the error count - this will be 0 if no
-    validation errors are encountered.
+    Validation errors are reported to the console. The program returns the error count (up to a maximum of 255)
+    - this will be 0 if all the Mapfiles are parsed and no validation errors are encountered.
 
     Example of validating a single Mapfile:
 
@@ -212,13 +212,14 @@ def validate(_, mapfiles, expand, version):
     validation_count = 0
     errors = 0
 
-    for fn in all_mapfiles:
-        fn = click.format_filename(fn)
+    for mapfile in all_mapfiles:
+        fn = click.format_filename(mapfile)
         try:
-            d = mappyfile.open(fn, expand_includes=expand, include_position=True)
+            d = mappyfile.open(mapfile, expand_includes=expand, include_position=True)
         except Exception as ex:
             logger.exception(ex)
             click.echo(f"{fn} failed to parse successfully")
+            errors += 1
             continue
 
         validation_messages = mappyfile.validate(d, version)
@@ -238,7 +239,8 @@ def validate(_, mapfiles, expand, version):
     click.echo(
         f"{len(all_mapfiles)} file(s) validated ({validation_count} successfully)"
     )
-    sys.exit(errors)
+    # an exit status is limited to 8 bits
+    sys.exit(min(errors, 255))
 
 
 @main.command(short_help="Export a Mapfile Schema")
-- 
2.43.0


From d2c20392d4634452a51b99ced40d5735238ca846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 12/33] fix: open keeps carriage returns within strings, as
 loads does

---
 mappyfile/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 654a590..c398c2b 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -199,7 +199,8 @@ class Parser:
 
     def open_file(self, fn: str):
         try:
-            with open(fn, "r", encoding="utf-8") as f:
+            # do not translate newlines, as these can be part of a string
+            with open(fn, "r", encoding="utf-8", newline="") as f:
                 return f.read()
         except UnicodeDecodeError as ex:
             log.debug(ex)
-- 
2.43.0


From 188277e8150f680606e3aa56e4e31037f9ebffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 13/33] fix: format options can contain non-ASCII characters

---
 mappyfile/cli.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 78ee28c..05244f3 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -45,6 +45,15 @@ def get_mapfiles(mapfiles):
     return all_mapfiles
 
 
+def unescape(value: str) -> str:
+    """
+    Decode escape sequences such as \\t and leave any other (including non-ASCII) characters as they are
+    """
+    return codecs.decode(
+        value.encode("latin-1", "backslashreplace"), "unicode_escape"
+    )
+
+
 def configure_logging(verbosity: int):
     """
     Configure logging level
@@ -147,11 +156,9 @@ def format(
         mappyfile format C:/Temp/valid.map C:/Temp/valid_formatted.map --no-expand --comments
     """
 
-    quote = codecs.decode(quote, "unicode_escape")  # ensure \t is handled as a tab
-    spacer = codecs.decode(spacer, "unicode_escape")  # ensure \t is handled as a tab
-    newlinechar = codecs.decode(
-        newlinechar, "unicode_escape"
-    )  # ensure \n is handled as a newline
+    quote = unescape(quote)
+    spacer = unescape(spacer)  # ensure \t is handled as a tab
+    newlinechar = unescape(newlinechar)  # ensure \n is handled as a newline
 
     d = mappyfile.open(
         input_mapfile,
-- 
2.43.0


From 950886ffc85c970ec6043c070b5ab83ccab2105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 14/33] fix: validate and pprint leave an object without a type
 unchanged

---
 mappyfile/pprint.py    |  3 ++-
 mappyfile/validator.py | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 636bd0f..8d2c0a6 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -322,7 +322,8 @@ class PrettyPrinter:
         lines = []
 
         for composite in composites:
-            type_ = composite["__type__"]
+            # use get, as reading a missing key with an index would create it
+            type_ = composite.get("__type__")
             if type_ in ("metadata", "validation", "connectionoptions"):
                 # types are being parsed directly, and not as an attr of a parent
                 lines += self.process_key_dict(type_, composite, level=0)
diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index faa35fb..d80e3c4 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -196,6 +196,14 @@ class Validator:
 
         return x
 
+    def get_object_type(self, d: dict, default: Any) -> str:
+        """
+        Return the type of an object, or the default if it has none. The key
+        is never read with an index, as this can create a missing key
+        """
+        type_ = d.get("__type__")
+        return type_ if isinstance(type_, str) else str(default)
+
     def create_message(
         self, rootdict: dict, path: str, error, add_comments: bool
     ) -> dict:
@@ -221,11 +229,11 @@ class Validator:
         if not path:
             # error applies to the root type
             d = rootdict
-            key = d["__type__"]
+            key = self.get_object_type(d, "mapfile")
         elif isinstance(path[-1], int):
             # the error is on an object in a list
             d = dictutils.findkey(rootdict, *path)
-            key = d["__type__"]
+            key = self.get_object_type(d, path[-2] if len(path) > 1 else "mapfile")
         else:
             key = path[-1]
             d = dictutils.findkey(rootdict, *path[:-1])
-- 
2.43.0


From 16243a7575a1a90289075d6eb34f7676eaa185e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 15/33] fix: version filtering covers objects within
 alternatives, such as the SYMBOL of a CLASS

---
 mappyfile/validator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index d80e3c4..c769a4c 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -159,6 +159,8 @@ class Validator:
                 for props in v:
                     if isinstance(props, dict):
                         if self.is_valid_for_version(props, version) is True:
+                            # an alternative can be an object with its own properties
+                            self.get_versioned_properties(props, version)
                             valid_list.append(props)
                     else:
                         valid_list.append(props)
-- 
2.43.0


From 2cd1b5208e480770431d99324fe0c71d8f750256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 16/33] fix: an object that is not available in a version is
 rejected as the root of a validation

---
 mappyfile/validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index c769a4c..ba074e0 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -138,6 +138,9 @@ class Validator:
             jsn_schema["properties"] = self.get_versioned_properties(
                 properties, version
             )
+            if not self.is_valid_for_version(jsn_schema, version):
+                # the object itself is not available in this version
+                jsn_schema["not"] = {}
 
         return jsn_schema
 
-- 
2.43.0


From b12bc57b07b4cf807b4a4aff526343c76a55e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 17/33] fix: load a feature with many POINTS blocks in linear
 time

---
 mappyfile/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 44d662b..a61ba53 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -174,7 +174,9 @@ class MapfileTransformer(Transformer):
             # allow for multipart features in a nested list
             existing_points = composite_dict[key_name]
 
-            if calculate_depth(existing_points) == 2:
+            # a single set of points is a list of pairs - only check the first item, as there may
+            # be any number of sets
+            if not isinstance(existing_points[0], list):
                 composite_dict[key_name] = [existing_points]
 
             if key_name not in composite_dict:
-- 
2.43.0


From 7414ca1bffb93286f70cbf1b07c17299e854c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 18/33] fix: assign comments to their keywords in linear time

---
 mappyfile/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index c398c2b..c8cf6f7 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -31,6 +31,7 @@ from __future__ import annotations
 import os
 import re
 import logging
+from collections import OrderedDict
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
 from typing import Any, IO
@@ -176,12 +177,11 @@ class Parser:
 
                 if node.data in ("projection"):
                     line = node.meta.end_line
-                line_numbers = list(sorted(self.comments_dict.keys()))
                 comments = []
 
-                for line_number in line_numbers:
-                    if line_number <= line:
-                        comments.append(self.comments_dict.pop(line_number))
+                # comments are stored in line order
+                while self.comments_dict and next(iter(self.comments_dict)) <= line:
+                    comments.append(self.comments_dict.popitem(last=False)[1])
 
                 if comments:
                     node.meta.comments = comments  # type: ignore
@@ -241,7 +241,7 @@ class Parser:
 
             tree = ip.resume_parse()
             if self.include_comments:
-                self.comments_dict = {}
+                self.comments_dict = OrderedDict()
                 # create a dictionary using line numbers as keys, and comments as values
                 for c in self._comments:
                     self.comments_dict[c.line] = c.value.strip()
-- 
2.43.0


From faf6a6a01ebf8a997a9761cb90825937016572e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 19/33] fix: a line with many unquoted paths is read in linear
 time

---
 mappyfile/mapfile.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 3cfdb8d..64dfe7e 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -160,7 +160,7 @@ ESCAPED_STRING: /`.*?`i?/
 //UNQUOTED_NUMERIC_STRING: /[a-z_][a-z0-9_\-]*/i
 
 // an unquoted absolute path such as /a/b.map is not a regular expression
-REGEXP1.2: /\/.*?\/i?(?![a-zA-Z0-9_.\/-])/
+REGEXP1.2: /\/[^\/\n]*\/i?(?![a-zA-Z0-9_.\/-])/
 REGEXP2: /\\\\.*?\\\\i?/
 
 RUNTIME_VAR: /%.*?%/
-- 
2.43.0


From a628abbe89685446187a3e242bbf4f6716e2706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 20/33] fix: always separate a key from its value when aligning
 values

---
 mappyfile/pprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 8d2c0a6..0837f3a 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -150,7 +150,8 @@ class PrettyPrinter:
     ) -> str:
         if (aligned_max_indent is None) or (aligned_max_indent == 0):
             aligned_max_indent = len(key) + 1
-        indent = " " * (aligned_max_indent - len(key))
+        # there is always a space between a key and its value
+        indent = " " * max(1, aligned_max_indent - len(key))
         tmpl = "{spacer}{key}{indent}{value}"
         d = {"spacer": spacer, "key": key, "value": value, "indent": indent}
         return tmpl.format(**d)
-- 
2.43.0


From 6d1ff5e348779a0ae844044886437055ce165fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 21/33] fix: separate_complex_types can be used with plain
 dictionaries

---
 mappyfile/dictutils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 70d422e..150b692 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -326,4 +326,8 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
 
 
 def dict_move_to_end(ordered_dict, key):
-    ordered_dict.move_to_end(key)
+    if hasattr(ordered_dict, "move_to_end"):
+        ordered_dict.move_to_end(key)
+    else:
+        # plain dictionaries also keep their keys in insertion order
+        ordered_dict[key] = ordered_dict.pop(key)
-- 
2.43.0


From 50d32c833a5c2101c2a46f0cbda148518a024eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 22/33] fix: print case-insensitive regular expressions without
 quotes

---
 mappyfile/quoter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index 3d2b690..e11937c 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -106,7 +106,8 @@ class Quoter:
 
     def in_slashes(self, val: str) -> bool:
         val = val.strip()
-        return self._in_quotes(val, "/")
+        # regular expressions can be case-insensitive e.g. /re/i
+        return len(val) > 2 and val.startswith("/") and val.endswith(("/", "/i"))
 
     def standardise_quotes(self, val: str) -> str:
         """
-- 
2.43.0


From f5333a65796e429399978dbea8e1408da1927e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 23/33] fix: format values using definitions nested in an allOf

---
 mappyfile/pprint.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 0837f3a..3dd6274 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -349,6 +349,12 @@ class PrettyPrinter:
             log.error(ex)
             return {}
 
+        if "allOf" in attr_props:
+            # an allOf is used to add metadata to a shared definition
+            attr_props = dict(attr_props)
+            for option in attr_props.pop("allOf"):
+                attr_props.update(option)
+
         return attr_props
 
     def is_expression(self, option):
-- 
2.43.0


From 801261e3153d738c29cb3d5342830f4a64a05574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 24/33] fix: print attribute bindings in a list of values
 without quotes

---
 mappyfile/pprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 3dd6274..3a117a0 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -442,7 +442,9 @@ class PrettyPrinter:
                     "polaroffset",
                 ]:
                     # don't add quotes to list of attributes for offset / polaroffset
-                    v = self.quoter.add_quotes(v)
+                    # or to an attribute binding such as [attribute]
+                    if not self.quoter.in_brackets(v):
+                        v = self.quoter.add_quotes(v)
                 new_values.append(v)
 
             value = " ".join(list(map(str, new_values)))
-- 
2.43.0


From 075ee8430160b1ab95fefa3711defd691e9045a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 25/33] fix: refuse values that cannot be written to a Mapfile

---
 mappyfile/pprint.py | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 3a117a0..dcc425b 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import logging
+import math
 import numbers
 from mappyfile.tokens import (
     COMPOSITE_NAMES,
@@ -145,6 +146,21 @@ class PrettyPrinter:
             end_line = f"{end_line} # {key.upper()}"
         return end_line
 
+    def check_value(self, key: str, value: Any) -> None:
+        """
+        Only strings, numbers and booleans can be written to a Mapfile
+        """
+        if isinstance(value, numbers.Real):
+            # there is no way to write NaN or infinity in a Mapfile
+            valid = math.isfinite(value)
+        else:
+            valid = isinstance(value, (str, numbers.Number))
+
+        if not valid:
+            raise ValueError(
+                f"The property {key} has a value that cannot be written to a Mapfile: {value!r}"
+            )
+
     def __format_line(
         self, spacer: str, key: str, value: Any, aligned_max_indent: int = 0
     ) -> str:
@@ -185,6 +201,7 @@ class PrettyPrinter:
 
         for k, v in d.items():
             if not self.__is_metadata(k):
+                self.check_value(k, v)
                 qk = self.quoter.add_quotes(k)
                 qv = self.quoter.add_quotes(v)
                 line = self.__format_line(
@@ -201,6 +218,7 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
+            self.check_value(k, v)
             cfg_val = self.quoter.add_quotes(k.upper())
             k = f"CONFIG {cfg_val}"
             v = self.quoter.add_quotes(v)
@@ -215,7 +233,11 @@ class PrettyPrinter:
         """
         lines = []
 
+        if not isinstance(lst, (list, tuple)):
+            raise ValueError(f"The property {key} is not a list")
+
         for v in lst:
+            self.check_value(key, v)
             k = key.upper()
             v = self.quoter.add_quotes(v)
             lines.append(
@@ -238,10 +260,13 @@ class PrettyPrinter:
             val = self.quoter.add_quotes(str(lst))
             # the value has been manually set to a single string projection
             lines.append(f"{whitespace}{val}")
+        elif not isinstance(lst, (list, tuple)):
+            raise ValueError(f"The property {key} is not a string or a list of strings")
         elif len(lst) == 1 and lst[0].upper() == "AUTO":
             lines.append(f"{whitespace}AUTO")
         else:
             for v in lst:
+                self.check_value(key, v)
                 v = self.quoter.add_quotes(v)
                 lines.append(f"{whitespace}{v}")
 
@@ -253,6 +278,13 @@ class PrettyPrinter:
         Process lists of pairs (e.g. PATTERN block)
         """
 
+        if not isinstance(pair_list, (list, tuple)):
+            raise ValueError(f"The property {key} is not a list of pairs")
+
+        for p in pair_list:
+            for v in p:
+                self.check_value(key, v)
+
         lines = [self.add_start_line(key, level)]
 
         list_spacer = self.spacer * (level + 2)
@@ -381,15 +413,18 @@ class PrettyPrinter:
         """
         TODO - refactor and add more specific tests (particularly for expressions)
         """
+        if isinstance(value, (list, tuple)):
+            if not value:
+                raise ValueError(f"The property {attr} has an empty list as a value")
+            for v in value:
+                self.check_value(attr, v)
+        else:
+            self.check_value(attr, value)
+
         if isinstance(value, bool):
             return str(value).upper()
 
         if any(i in ["enum"] for i in attr_props):
-            if isinstance(value, dict) and not value:
-                raise ValueError(
-                    f"The property {attr} has an empty dictionary as a value"
-                )
-
             if not isinstance(value, numbers.Number):
                 if attr == "compop":
                     return self.quoter.add_quotes(str(value))
-- 
2.43.0


From 5654264d53ceb63c0cccd336a57f55919b382185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 26/33] fix: do not print hidden keys of CONFIG settings

---
 mappyfile/pprint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index dcc425b..cf25517 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -218,6 +218,8 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
+            if self.__is_metadata(k):
+                continue
             self.check_value(k, v)
             cfg_val = self.quoter.add_quotes(k.upper())
             k = f"CONFIG {cfg_val}"
-- 
2.43.0


From db27ca02e56bfab0fcb64ff64dc2f54c6cfb527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 27/33] fix: keywords with a simple value are not separated as
 complex types

---
 mappyfile/pprint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index cf25517..a787dd1 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -327,6 +327,9 @@ class PrettyPrinter:
         # symbol needs special treatment
         if key == "symbol" and level > 0:
             return False
+        # keywords can share a name with a type e.g. SYMBOLSET "symbols.txt" or STYLE 1
+        if key != "projection" and isinstance(composite[key], (str, numbers.Number)):
+            return False
         return (
             key in COMPLEX_TYPES
             or self.is_composite(key)
-- 
2.43.0


From db5d7f26561a7eaf6876557b793bd30c1354fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 28/33] fix: refuse POINTS that are not a list

---
 mappyfile/pprint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index a787dd1..a0be6bd 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -309,6 +309,9 @@ class PrettyPrinter:
         def depth(iterable):
             return isinstance(iterable, (tuple, list)) and max(map(depth, iterable)) + 1
 
+        if not isinstance(root_list, (list, tuple)):
+            raise ValueError(f"The property {key} is not a list of pairs")
+
         if depth(root_list) == 2:
             # single set of points only
             root_list = [root_list]
-- 
2.43.0


From 60b353ae96e839d9d6c663adb9c0fdad7c08e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 29/33] fix: only a single attribute binding is printed without
 quotes

---
 mappyfile/quoter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index e11937c..bd9a913 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -94,7 +94,15 @@ class Quoter:
 
     def in_brackets(self, val: str) -> bool:
         val = val.strip()
-        return val.startswith("[") and val.endswith("]")
+        # check for a single set of brackets, and not "[field1]-[field2]"
+        middle = val[1:-1].strip()
+        return (
+            val.startswith("[")
+            and val.endswith("]")
+            and middle != ""
+            and "[" not in middle
+            and "]" not in middle
+        )
 
     def in_parenthesis(self, val: str) -> bool:
         val = val.strip()
-- 
2.43.0


From 790ca2a2ecf1d844fb01030ed9aa615f1b86d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 30/33] fix: print tuples as lists of values

---
 mappyfile/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index a0be6bd..9e13f32 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -476,7 +476,7 @@ class PrettyPrinter:
                 else:
                     value = self.check_options_list(options_list, value)
 
-        if isinstance(value, list):
+        if isinstance(value, (list, tuple)):
             new_values = []
 
             for v in value:
-- 
2.43.0


From e7981cd37099d572fd5926834db000fecb4ff0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 31/33] fix: refuse fractions and complex numbers, and accept
 integers of any size

---
 mappyfile/pprint.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 9e13f32..486f0f6 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -31,6 +31,7 @@ from __future__ import annotations
 import logging
 import math
 import numbers
+from decimal import Decimal
 from mappyfile.tokens import (
     COMPOSITE_NAMES,
     SINGLETON_COMPOSITE_NAMES,
@@ -150,11 +151,13 @@ class PrettyPrinter:
         """
         Only strings, numbers and booleans can be written to a Mapfile
         """
-        if isinstance(value, numbers.Real):
-            # there is no way to write NaN or infinity in a Mapfile
-            valid = math.isfinite(value)
+        if isinstance(value, (str, numbers.Integral)):
+            valid = True
+        elif isinstance(value, (numbers.Real, Decimal)):
+            # there is no way to write fractions, NaN or infinity in a Mapfile
+            valid = not isinstance(value, numbers.Rational) and math.isfinite(value)
         else:
-            valid = isinstance(value, (str, numbers.Number))
+            valid = False
 
         if not valid:
             raise ValueError(
-- 
2.43.0


From 98abb798874e18ae115d922dc5610ef7d233e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 32/33] fix: quote strings of keywords that are not in the
 schema

---
 mappyfile/pprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 486f0f6..80d33aa 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -390,7 +390,8 @@ class PrettyPrinter:
                 "The key '%s' was not found in the JSON schema for '%s'", attr, type_
             )
             log.error(ex)
-            return {}
+            # strings are quoted, unless they are an expression or a binding
+            return {"anyOf": [{"type": "string"}]}
 
         if "allOf" in attr_props:
             # an allOf is used to add metadata to a shared definition
-- 
2.43.0


From f4beeb00e41284ccbd54efe81aa7f924bc559fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 33/33] fix: findunique returns the distinct values of keywords
 with a list of values

---
 mappyfile/dictutils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 150b692..d73340c 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -30,7 +30,7 @@
 from __future__ import annotations
 import copy
 from typing import Any
-from itertools import zip_longest
+from itertools import groupby, zip_longest
 
 
 def find(lst: list[dict], key: str, value: Any) -> dict | None:
@@ -193,12 +193,9 @@ def findunique(lst, key):
         groups = mappyfile.findunique(d["classes"], "group")
         assert groups == ["group1", "group2"]
     """
-    return sorted(
-        set((item.get(key.lower(), None) for item in lst))
-        - {
-            None,
-        }
-    )
+    values = (item.get(key.lower(), None) for item in lst)
+    # equal values are next to each other once sorted - a set cannot hold lists such as a COLOR
+    return [v for v, _ in groupby(sorted(v for v in values if v is not None))]
 
 
 def findkey(d: dict, *keys: list[Any]) -> dict:
-- 
2.43.0

