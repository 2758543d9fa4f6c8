From 8339268f4dd7dbb5f5acef5901640e478aedeccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:20 +0000
Subject: [PATCH 01/25] fix: xs:decimal accepted NaN, Infinity, exponents,
 underscores and blanks

---
 aas_test_engines/data_types.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 6785f9b..feb4893 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -1,4 +1,3 @@
-from decimal import Decimal, DecimalException
 from typing import Pattern, Dict, Mapping
 import re
 import base64
@@ -6,11 +5,7 @@ from enum import Enum
 
 
 def is_decimal(s: str) -> bool:
-    try:
-        Decimal(s)
-        return True
-    except DecimalException:
-        return False
+    return re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", s) is not None
 
 
 def _is_bounded_double(s: str, min: float, max: float) -> bool:
-- 
2.43.0


From fe0f8d032c350cb5b1607afa1d30a034f09752d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:20 +0000
Subject: [PATCH 02/25] fix: xs:float and xs:double accepted non-XSD spellings
 and rejected the largest value

---
 aas_test_engines/data_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index feb4893..2776fba 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -11,11 +11,11 @@ def is_decimal(s: str) -> bool:
 def _is_bounded_double(s: str, min: float, max: float) -> bool:
     if s in ["INF", "-INF", "NaN"]:
         return True
-    try:
-        v = float(s)
-        return v > min and v < max
-    except ValueError:
+    # float() is more permissive than the lexical space of xs:float and xs:double
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?", s) is None:
         return False
+    v = float(s)
+    return v >= min and v <= max
 
 
 def is_float(s: str) -> bool:
-- 
2.43.0


From 1eb12f7c9a78dfce3f3bb8a297a47fa82ca27c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:20 +0000
Subject: [PATCH 03/25] fix: xs:integer family accepted blanks, underscores and
 non-ASCII digits

---
 aas_test_engines/data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 2776fba..dfa8ebe 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -27,6 +27,9 @@ def is_double(s: str) -> bool:
 
 
 def _is_bounded_integer(s: int, min: int, max: int) -> bool:
+    # int() is more permissive than the lexical space of xs:integer
+    if re.fullmatch(r"[+-]?[0-9]+", s) is None:
+        return False
     try:
         v = int(s)
         return v >= min and v <= max
-- 
2.43.0


From 88037b7c41215dfe9e0b6f4250c3d75f8bcafad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:20 +0000
Subject: [PATCH 04/25] fix: xs:hexBinary accepted blanks

---
 aas_test_engines/data_types.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index dfa8ebe..562718b 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -38,11 +38,7 @@ def _is_bounded_integer(s: int, min: int, max: int) -> bool:
 
 
 def is_hex_binary(s: str) -> bool:
-    try:
-        bytes.fromhex(s)
-        return True
-    except (KeyError, ValueError):
-        return False
+    return re.fullmatch(r"([0-9a-fA-F]{2})*", s) is not None
 
 
 def _is_leap_year(year: int) -> bool:
-- 
2.43.0


From a6210c179bfb97638d9e1509cc048dbc7e85a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:20 +0000
Subject: [PATCH 05/25] fix: xs:base64Binary accepted characters outside of the
 alphabet

---
 aas_test_engines/data_types.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 562718b..fac5e61 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -264,11 +264,10 @@ def is_any_uri(s: str) -> bool:
 
 
 def is_base64_binary(s: str) -> bool:
-    try:
-        base64.b64decode(s)
-        return True
-    except ValueError:
-        return False
+    # b64decode() silently skips characters outside of the alphabet
+    b64 = "[A-Za-z0-9+/]"
+    last = f"({b64} ?){{3}}{b64}|({b64} ?){{2}}[AEIMQUYcgkosw048] ?=|{b64} ?[AQgw] ?= ?="
+    return re.fullmatch(f"((({b64} ?){{4}})*({last}))?", s) is not None
 
 
 def _construct_matches_bcp_47() -> Pattern[str]:
-- 
2.43.0


From 96dcd416701e8061bd61e73a6db53c217d5be421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:20 +0000
Subject: [PATCH 06/25] fix: date, dateTime, gMonthDay, anyURI and language
 checks accepted a trailing newline

---
 aas_test_engines/data_types.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index fac5e61..d863ec7 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -90,7 +90,7 @@ _DATE_PREFIX_RE = re.compile(r"^(-?[0-9]+)-([0-9]{2})-([0-9]{2})")
 
 
 def is_xs_date(value: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE.match(value) is None:
+    if _REGEX_MATCHES_XS_DATE.fullmatch(value) is None:
         return False
 
     match = _DATE_PREFIX_RE.match(value)
@@ -138,7 +138,7 @@ _REGEX_MATCHES_XS_DATE_TIME = _construct_matches_xs_date_time()
 
 
 def is_xs_date_time(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -165,7 +165,7 @@ _REGEX_MATCHES_XS_DATE_TIME_UTC = _construct_matches_xs_date_time_utc()
 
 
 def is_xs_date_time_utc(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME_UTC.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME_UTC.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -247,7 +247,7 @@ _REGEX_MATCHES_XS_G_MONTH_DAY = _construct_matches_xs_g_month_day()
 
 
 def is_xs_g_month_day(s: str) -> bool:
-    if _REGEX_MATCHES_XS_G_MONTH_DAY.match(s) is None:
+    if _REGEX_MATCHES_XS_G_MONTH_DAY.fullmatch(s) is None:
         return False
     month = int(s[2:4])
     day = int(s[5:7])
@@ -260,7 +260,7 @@ _REGEX_MATCHES_XS_ANY_URI = _construct_matches_xs_any_uri()
 
 
 def is_any_uri(s: str) -> bool:
-    return _REGEX_MATCHES_XS_ANY_URI.match(s) is not None
+    return _REGEX_MATCHES_XS_ANY_URI.fullmatch(s) is not None
 
 
 def is_base64_binary(s: str) -> bool:
@@ -294,7 +294,7 @@ _REGEX_MATCHES_BCP_47 = _construct_matches_bcp_47()
 
 
 def is_bcp_lang_string(s: str) -> bool:
-    return _REGEX_MATCHES_BCP_47.match(s) is not None
+    return _REGEX_MATCHES_BCP_47.fullmatch(s) is not None
 
 
 def _construct_matches_version_type() -> Pattern[str]:
@@ -306,7 +306,7 @@ _REGEX_MATCHES_VERSION_TYPE = _construct_matches_version_type()
 
 
 def is_version_string(text: str) -> bool:
-    return _REGEX_MATCHES_VERSION_TYPE.match(text) is not None
+    return _REGEX_MATCHES_VERSION_TYPE.fullmatch(text) is not None
 
 
 _REGEX_IS_BCP_47_FOR_ENGLISH = re.compile("^(en|EN)(-.*)?$")
-- 
2.43.0


From 1bcd43f32302df09014a2e1c00b37f8562bd2da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:20 +0000
Subject: [PATCH 07/25] fix: a date with more than 4300 year digits crashed the
 check

---
 aas_test_engines/data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index d863ec7..cbe4d92 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -96,7 +96,11 @@ def is_xs_date(value: str) -> bool:
     match = _DATE_PREFIX_RE.match(value)
     assert match is not None
 
-    year = int(match.group(1))
+    try:
+        year = int(match.group(1))
+    except ValueError:
+        # exceeds the integer conversion limit of the interpreter
+        return False
     month = int(match.group(2))
     day = int(match.group(3))
 
-- 
2.43.0


From d180e2486cf457914ea9a360a0b4916cedbf5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:57 +0000
Subject: [PATCH 08/25] fix: check_xml_file ignored the model type

---
 aas_test_engines/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index d1ad9c6..f482034 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -48,7 +48,7 @@ def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: st
         data = ElementTree.fromstring(file.read())
     except ElementTree.ParseError as e:
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
-    return check_xml_data(data, version)
+    return check_xml_data(data, version, model_type)
 
 
 TYPE_AASX_ORIGIN = "http://admin-shell.io/aasx/relationships/aasx-origin"
-- 
2.43.0


From 1b08ccefc2a4997d5bf700fc801e740215a45635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:57 +0000
Subject: [PATCH 09/25] fix: check_json_file crashed on undecodable files

---
 aas_test_engines/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index f482034..89ec626 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -31,7 +31,8 @@ def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str
 def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = json.load(file)
-    except json.decoder.JSONDecodeError as e:
+    except ValueError as e:
+        # Malformed JSON, invalid unicode or numbers exceeding the limits of the interpreter
         return AasTestResult(f"Invalid JSON: {e}", Level.ERROR)
     return check_json_data(data, version, model_type)
 
-- 
2.43.0


From 0b20584e57964aebad405409ec4785200156f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:57 +0000
Subject: [PATCH 10/25] fix: check_xml_file crashed on unknown encodings

---
 aas_test_engines/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 89ec626..724567f 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -47,7 +47,8 @@ def check_xml_data(
 def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = ElementTree.fromstring(file.read())
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
+        # Malformed XML or unknown/unsupported encoding
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
     return check_xml_data(data, version, model_type)
 
-- 
2.43.0


From 4efb54091b1ac78abbc14fc8286f5a2fd809c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:57 +0000
Subject: [PATCH 11/25] fix: a missing aas spec discarded all findings and was
 reported as compliant

---
 aas_test_engines/file.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 724567f..a430435 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -64,6 +64,22 @@ DEPRECATED_TYPES = {
 TYPE_THUMBNAIL = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
 
 
+def _check_spec(zipfile: zipfile.ZipFile, target: str, version: str, result: AasTestResult) -> AasTestResult:
+    try:
+        f = zipfile.open(target)
+    except KeyError:
+        result.append(AasTestResult("File does not exist", Level.ERROR))
+        return result
+    with f:
+        if target.endswith(".xml"):
+            result.append(check_xml_file(f, version))
+        elif target.endswith(".json"):
+            result.append(check_json_file(f, version))
+        else:
+            result.append(AasTestResult("Unknown filetype", Level.WARNING))
+    return result
+
+
 def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str) -> AasTestResult:
     result = AasTestResult("Checking files")
     origin_rels = root_rel.sub_rels_by_type(TYPE_AASX_ORIGIN)
@@ -80,18 +96,7 @@ def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str)
             result.append(AasTestResult("No aas spec found", level=Level.WARNING))
         for aasx_spec in spec_rels:
             sub_result = AasTestResult(f"Checking {aasx_spec.target}")
-            try:
-                with zipfile.open(aasx_spec.target) as f:
-                    if aasx_spec.target.endswith(".xml"):
-                        r = check_xml_file(f, version)
-                    elif aasx_spec.target.endswith(".json"):
-                        r = check_json_file(f, version)
-                    else:
-                        r = AasTestResult("Unknown filetype", Level.WARNING)
-                    sub_result.append(r)
-            except KeyError:
-                return AasTestResult("File does not exist")
-            result.append(sub_result)
+            result.append(_check_spec(zipfile, aasx_spec.target, version, sub_result))
     return result
 
 
-- 
2.43.0


From 8ad2c14ad531b5921df0d54af004d82d13670f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:45 +0000
Subject: [PATCH 12/25] fix: relationships of parts in the root folder of a
 package were ignored

---
 aas_test_engines/opc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index f618451..55092a1 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -100,7 +100,7 @@ def _scan_relationships(
             Level.ERROR,
         )
 
-    if dir:
+    if file:
         result = AasTestResult(f"Checking relationships of {dir}{file}")
     else:
         result = AasTestResult(f"Checking root relationship")
@@ -142,7 +142,8 @@ def _scan_relationships(
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
-        r = _scan_relationships(zipfile, sub_rel, sub_dir + "/", file, visited_targets, deprecated_types)
+        sub_dir = sub_dir + "/" if sub_dir else ""
+        r = _scan_relationships(zipfile, sub_rel, sub_dir, file, visited_targets, deprecated_types)
         if r:
             result.append(r)
 
-- 
2.43.0


From db7de05c648ed187bbf432dd42dbba7f632445eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:45 +0000
Subject: [PATCH 13/25] fix: malformed, corrupted or encrypted parts of a
 package crashed the check

---
 aas_test_engines/file.py | 12 ++++++----
 aas_test_engines/opc.py  | 49 +++++++++++++++++++++++++++++++---------
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index a430435..68110d1 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -1,8 +1,9 @@
 from typing import List, Dict, TextIO, Union, Any, Set, Optional
+import io
 import json
 
 from .result import AasTestResult, Level
-from .opc import Relationship, read_opc
+from .opc import Relationship, UnreadablePartException, read_opc, read_part
 
 from xml.etree import ElementTree
 import zipfile
@@ -66,11 +67,14 @@ TYPE_THUMBNAIL = "http://schemas.openxmlformats.org/package/2006/relationships/m
 
 def _check_spec(zipfile: zipfile.ZipFile, target: str, version: str, result: AasTestResult) -> AasTestResult:
     try:
-        f = zipfile.open(target)
+        content = read_part(zipfile, target)
     except KeyError:
         result.append(AasTestResult("File does not exist", Level.ERROR))
         return result
-    with f:
+    except UnreadablePartException as e:
+        result.append(AasTestResult(f"{e}", Level.ERROR))
+        return result
+    with io.BytesIO(content) as f:
         if target.endswith(".xml"):
             result.append(check_xml_file(f, version))
         elif target.endswith(".json"):
@@ -117,7 +121,7 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
     try:
         zip = zipfile.ZipFile(file)
-    except zipfile.BadZipFile as e:
+    except (zipfile.BadZipFile, NotImplementedError, ValueError) as e:
         return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
 
     return check_aasx_data(zip, version)
diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 55092a1..3d90349 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -42,6 +42,31 @@ def splitpath(path: str) -> Tuple[str, str]:
     return prefix, suffix
 
 
+class UnreadablePartException(Exception):
+    pass
+
+
+def read_part(zipfile: zipfile.ZipFile, name: str) -> bytes:
+    """
+    Returns the content of a part.
+    Raises KeyError if there is no such part and UnreadablePartException if it is corrupted, encrypted, etc.
+    """
+    try:
+        return zipfile.read(name)
+    except KeyError:
+        raise
+    except Exception as e:
+        raise UnreadablePartException(f"Cannot read {name}: {e}")
+
+
+def _parse_part(zipfile: zipfile.ZipFile, name: str) -> ElementTree.Element:
+    content = read_part(zipfile, name)
+    try:
+        return ElementTree.fromstring(content)
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
+        raise UnreadablePartException(f"Invalid xml in {name}: {e}")
+
+
 class Relationship:
 
     def __init__(self, type: str, target: str) -> None:
@@ -63,18 +88,19 @@ def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
     content_types_xml = "[Content_Types].xml"
     result = AasTestResult(f"Checking {content_types_xml}")
     try:
-        with zipfile.open(content_types_xml, "r") as f:
-            content_types = ElementTree.parse(f)
-            expected_tag = f"{NS_CONTENT_TYPES}Types"
-            if content_types.getroot().tag != expected_tag:
-                result.append(
-                    AasTestResult(
-                        f"root must have tag {expected_tag}, got {content_types.getroot().tag}",
-                        Level.ERROR,
-                    )
+        content_types = _parse_part(zipfile, content_types_xml)
+        expected_tag = f"{NS_CONTENT_TYPES}Types"
+        if content_types.tag != expected_tag:
+            result.append(
+                AasTestResult(
+                    f"root must have tag {expected_tag}, got {content_types.tag}",
+                    Level.ERROR,
                 )
+            )
     except KeyError:
         result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
+    except UnreadablePartException as e:
+        result.append(AasTestResult(f"{e}", Level.ERROR))
 
     return result
 
@@ -88,11 +114,12 @@ def _scan_relationships(
     deprecated_types: Dict[str, str],
 ) -> Optional[AasTestResult]:
     try:
-        with zipfile.open(f"{dir}_rels/{file}.rels", "r") as f:
-            relationships = ElementTree.parse(f).getroot()
+        relationships = _parse_part(zipfile, f"{dir}_rels/{file}.rels")
     except KeyError:
         # file does not exist
         return None
+    except UnreadablePartException as e:
+        return AasTestResult(f"{e}", Level.ERROR)
     expected_tag = f"{NS_RELATIONSHIPS}Relationships"
     if relationships.tag != expected_tag:
         return AasTestResult(
-- 
2.43.0


From 2865c9deefbed76c082fcca36c20390a60002c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 14/25] fix: additional headers were never sent to the server

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 1a18b1e..e12d2dd 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -70,6 +70,6 @@ class HttpClient:
             url=host + url,
             method=request.method,
             data=body,
-            headers=request.headers,
+            headers={**request.headers, **self.additional_headers},
             verify=self.verify,
         )
-- 
2.43.0


From 77cbbe314d5e06ec7649d00db315da4fb07cb46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 15/25] fix: descending a client lost its class and existing
 path prefixes

---
 aas_test_engines/http.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index e12d2dd..2a217cb 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -3,6 +3,7 @@ import requests
 from requests.models import Response
 from dataclasses import dataclass, field
 from urllib.parse import urlencode
+import copy
 import json
 
 
@@ -45,8 +46,9 @@ class HttpClient:
         self.additional_headers = additional_headers
 
     def descend(self, prefix: str):
-        result = HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)
-        result.prefixes.append(prefix)
+        # Keep the class (users may provide their own client) and existing prefixes
+        result = copy.copy(self)
+        result.prefixes = self.prefixes + [prefix]
         return result
 
     def send(self, request: Request) -> Response:
-- 
2.43.0


From 6908a890d6f685a23e6d3ded0967493d2368b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 16/25] fix: boolean query parameters were not sent as true or
 false

---
 aas_test_engines/http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 2a217cb..9506651 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -18,7 +18,9 @@ class Request:
 
     def make_url(self) -> str:
         url = self.path
-        query_params = {k: v for k, v in self.query_parameters.items() if v is not None}
+        query_params = {
+            k: str(v).lower() if isinstance(v, bool) else v for k, v in self.query_parameters.items() if v is not None
+        }
         if query_params:
             url += "?" + urlencode(query_params)
         return url
-- 
2.43.0


From 3fdb2b7cb13d55277dd4d8ca511293bbe1e2f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 17/25] fix: check_server crashed on unknown versions

---
 aas_test_engines/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index ddd0e53..3c79c16 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -106,6 +106,7 @@ def run_api_test(argv):
         available_suites = api.supported_versions()[args.version]
     except KeyError:
         sys.stderr.write(f"Unknown version, must be one of {api.supported_versions().keys()}\n")
+        sys.exit(1)
     suites = [i for i in available_suites if args.suite in i]
     if len(suites) == 0:
         sys.stderr.write(f"Unknown suite '{args.suite}', must be one of:\n")
-- 
2.43.0


From 16aa3267fbc4a71375cada2451eecba3d4cca52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:45 +0000
Subject: [PATCH 18/25] fix: unknown versions were silently ignored by the file
 checks

---
 aas_test_engines/file.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 68110d1..4e1d3a3 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -2,6 +2,7 @@ from typing import List, Dict, TextIO, Union, Any, Set, Optional
 import io
 import json
 
+from .exception import AasTestToolsException
 from .result import AasTestResult, Level
 from .opc import Relationship, UnreadablePartException, read_opc, read_part
 
@@ -24,7 +25,13 @@ def latest_version():
     return _DEFAULT_VERSION
 
 
+def _check_version(version: str):
+    if version not in supported_versions():
+        raise AasTestToolsException(f"Unknown version {version}, must be one of {supported_versions()}")
+
+
 def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
+    _check_version(version)
     result, obj = json_to_obj(data, model_type)
     return result
 
@@ -41,6 +48,7 @@ def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: s
 def check_xml_data(
     data: ElementTree, version: str = _DEFAULT_VERSION, model_type: str = "Environment"
 ) -> AasTestResult:
+    _check_version(version)
     result, obj = xml_to_obj(data, model_type)
     return result
 
@@ -105,7 +113,7 @@ def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str)
 
 
 def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -> AasTestResult:
-
+    _check_version(version)
     result = AasTestResult("Checking AASX package")
     root_rel = Relationship("ROOT", "/")
     read_opc(zipfile, root_rel, result, DEPRECATED_TYPES)
-- 
2.43.0


From 0d88433de89491d6dcbe78cfd72d5ded0a84b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:41 +0000
Subject: [PATCH 19/25] fix: a path prefix directly followed by query
 parameters was not removed

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 9506651..3880eb3 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -66,7 +66,7 @@ class HttpClient:
 
         url = "".join(self.prefixes) + request.make_url()
         if url.startswith(self.remove_path_prefix) and (
-            len(url) == len(self.remove_path_prefix) or url[len(self.remove_path_prefix)] == "/"
+            len(url) == len(self.remove_path_prefix) or url[len(self.remove_path_prefix)] in "/?"
         ):
             url = url[len(self.remove_path_prefix) :]
 
-- 
2.43.0


From 95bba2250f4c5dba9d45a063729b9ead0016210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:57 +0000
Subject: [PATCH 20/25] fix: relationships of a part which is referenced more
 than once were ignored

---
 aas_test_engines/opc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 3d90349..94dd8af 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -1,4 +1,4 @@
-from typing import List, Set, Optional, Tuple, Dict
+from typing import List, Optional, Tuple, Dict
 from .result import AasTestResult, Level
 import zipfile
 from xml.etree import ElementTree
@@ -110,7 +110,7 @@ def _scan_relationships(
     parent_rel: Relationship,
     dir: str,
     file: str,
-    visited_targets: Set[str],
+    visited_targets: Dict[str, Relationship],
     deprecated_types: Dict[str, str],
 ) -> Optional[AasTestResult]:
     try:
@@ -164,8 +164,9 @@ def _scan_relationships(
         parent_rel.sub_rels.append(sub_rel)
         if target in visited_targets:
             result.append(AasTestResult(f"Already checked {target}", Level.INFO))
+            sub_rel.sub_rels = visited_targets[target].sub_rels
             continue
-        visited_targets.add(target)
+        visited_targets[target] = sub_rel
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
@@ -181,7 +182,7 @@ def _check_relationships(
     zipfile: zipfile.ZipFile, root_rel: Relationship, deprecated_types: Dict[str, str]
 ) -> AasTestResult:
     result = AasTestResult("Checking relationships")
-    visited_targets = set()
+    visited_targets: Dict[str, Relationship] = {}
     r = _scan_relationships(zipfile, root_rel, "", "", visited_targets, deprecated_types)
     if r:
         result.append(r)
-- 
2.43.0


From 2044bc74a06f1638744bdab1a5070997bd35d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:56 +0000
Subject: [PATCH 21/25] fix: reflect enumerations of the same name in different
 scopes as different types

---
 aas_test_engines/reflect.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aas_test_engines/reflect.py b/aas_test_engines/reflect.py
index c0a2442..4b5290c 100644
--- a/aas_test_engines/reflect.py
+++ b/aas_test_engines/reflect.py
@@ -226,6 +226,13 @@ def _collect_subclasses(cls):
         yield from _collect_subclasses(i)
 
 
+def _symbol_key(cls) -> str:
+    if isinstance(cls, Enum.__class__):
+        # In contrast to other classes, the string representation of enums does not contain the module and outer class
+        return f"<enum '{cls.__module__}:{cls.__qualname__}'>"
+    return str(cls)
+
+
 class SymbolTable:
 
     MissingRef = object()
@@ -251,11 +258,11 @@ class SymbolTable:
             if isinstance(symbol, ClassType):
                 for field in symbol.attrs:
                     assert isinstance(field.type, UnresolvedType)
-                    field.type = self.symbols[str(field.type.ref_cls)]
-                symbol.subclasses = [self.symbols[str(sc.ref_cls)] for sc in symbol.subclasses]
+                    field.type = self.symbols[_symbol_key(field.type.ref_cls)]
+                symbol.subclasses = [self.symbols[_symbol_key(sc.ref_cls)] for sc in symbol.subclasses]
             elif isinstance(symbol, ListType):
                 assert isinstance(symbol.item_type, UnresolvedType)
-                symbol.item_type = self.symbols[str(symbol.item_type.ref_cls)]
+                symbol.item_type = self.symbols[_symbol_key(symbol.item_type.ref_cls)]
 
 
 def _reflect_list(item_cls, globals, locals, symbol_table: SymbolTable, allow_empty: bool) -> ClassType:
@@ -289,7 +296,7 @@ def _reflect_class(cls, globals, locals, symbol_table: SymbolTable) -> ClassType
 
 
 def _reflect(cls: any, globals, locals, symbol_table: SymbolTable) -> Tuple[TypeBase, SymbolTable]:
-    key = str(cls)
+    key = _symbol_key(cls)
     try:
         return symbol_table.symbols[key]
     except KeyError:
-- 
2.43.0


From 16da43838d53e560eb0da04e1d268c07b154d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:23 +0000
Subject: [PATCH 22/25] fix: deeply nested data crashed the check with
 RecursionError

---
 aas_test_engines/file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 4e1d3a3..3f5e052 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -32,7 +32,10 @@ def _check_version(version: str):
 
 def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     _check_version(version)
-    result, obj = json_to_obj(data, model_type)
+    try:
+        result, obj = json_to_obj(data, model_type)
+    except RecursionError:
+        return AasTestResult("Data is nested too deeply to be checked", Level.CRITICAL)
     return result
 
 
@@ -42,6 +45,8 @@ def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: s
     except ValueError as e:
         # Malformed JSON, invalid unicode or numbers exceeding the limits of the interpreter
         return AasTestResult(f"Invalid JSON: {e}", Level.ERROR)
+    except RecursionError:
+        return AasTestResult("Data is nested too deeply to be checked", Level.CRITICAL)
     return check_json_data(data, version, model_type)
 
 
@@ -49,7 +54,10 @@ def check_xml_data(
     data: ElementTree, version: str = _DEFAULT_VERSION, model_type: str = "Environment"
 ) -> AasTestResult:
     _check_version(version)
-    result, obj = xml_to_obj(data, model_type)
+    try:
+        result, obj = xml_to_obj(data, model_type)
+    except RecursionError:
+        return AasTestResult("Data is nested too deeply to be checked", Level.CRITICAL)
     return result
 
 
-- 
2.43.0


From 5c2ce634d43155cd69a308103d40866df3960ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:56 +0000
Subject: [PATCH 23/25] fix: unreadable files got a verdict although the
 version is unknown

---
 aas_test_engines/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 3f5e052..c3db848 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -40,6 +40,7 @@ def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str
 
 
 def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
+    _check_version(version)
     try:
         data = json.load(file)
     except ValueError as e:
@@ -62,6 +63,7 @@ def check_xml_data(
 
 
 def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
+    _check_version(version)
     try:
         data = ElementTree.fromstring(file.read())
     except (ElementTree.ParseError, LookupError, ValueError) as e:
@@ -135,6 +137,7 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 
 
 def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
+    _check_version(version)
     try:
         zip = zipfile.ZipFile(file)
     except (zipfile.BadZipFile, NotImplementedError, ValueError) as e:
-- 
2.43.0


From 4a9e104770efcf56a6b47d95c31ad6d5ff6eeb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:56 +0000
Subject: [PATCH 24/25] fix: check_file and check_server crashed on printing
 characters that cannot be encoded

---
 aas_test_engines/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index 3c79c16..fbe99bf 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -168,6 +168,9 @@ commands = {
 
 
 def main():
+    # Findings quote the checked content, which may contain characters that cannot be encoded
+    if hasattr(sys.stdout, "reconfigure"):
+        sys.stdout.reconfigure(errors="backslashreplace")
 
     if len(sys.argv) <= 1:
         print(f"Usage: {sys.argv[0]} COMMAND OPTIONS...")
-- 
2.43.0


From 3c72e1f8a996ba4d52af297d9b1ce8f859d7037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:14 +0000
Subject: [PATCH 25/25] fix: server checks in different threads mixed up their
 results

---
 aas_test_engines/result.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/result.py b/aas_test_engines/result.py
index 952067d..99ed18d 100644
--- a/aas_test_engines/result.py
+++ b/aas_test_engines/result.py
@@ -2,6 +2,8 @@ from typing import List, TypeVar, Union
 from enum import Enum
 import os
 import html
+import threading
+from collections import UserList
 
 T = TypeVar("T")
 
@@ -103,7 +105,11 @@ class AasTestResult:
         return v
 
 
-managers: List["ContextManager"] = []
+class ManagerStack(threading.local, UserList):
+    """Opened contexts, each thread has its own"""
+
+
+managers: List["ContextManager"] = ManagerStack()
 
 
 class ContextManager:
-- 
2.43.0

