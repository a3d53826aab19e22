From c94bd283923be61db35c91a5e767706b6f520605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 01/52] fix: replace files in one step in moz-l10n fix

The file was rewritten in place, so a kill, Ctrl-C, full disk or I/O error
in the middle left a truncated or mixed file behind.
---
 python/moz/l10n/bin/fix.py         | 25 +++++++------
 python/moz/l10n/util/write_file.py | 58 ++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+), 13 deletions(-)
 create mode 100644 python/moz/l10n/util/write_file.py

diff --git a/python/moz/l10n/bin/fix.py b/python/moz/l10n/bin/fix.py
index 251b3db..55f781a 100644
--- a/python/moz/l10n/bin/fix.py
+++ b/python/moz/l10n/bin/fix.py
@@ -24,6 +24,7 @@ import click
 from moz.l10n.bin.utils import handle_paths, set_log_level
 from moz.l10n.formats import UnsupportedFormat
 from moz.l10n.resource import parse_resource, serialize_resource
+from moz.l10n.util.write_file import write_file
 
 log = logging.getLogger(__name__)
 
@@ -124,19 +125,17 @@ def fix_file(root: str, path: str) -> Result:
     try:
         with open(path, "+rb") as file:
             prev = file.read()
-            res = parse_resource(path, prev)
-            next = bytearray()
-            for line in serialize_resource(res):
-                next.extend(line.encode("utf-8"))
-            if next == prev:
-                log.info(f"OK: {rel_path}")
-                return Result.OK
-            else:
-                file.seek(0)
-                file.write(next)
-                file.truncate()
-                log.warning(f"Fixed: {rel_path}")
-                return Result.FIXED
+        res = parse_resource(path, prev)
+        next = bytearray()
+        for line in serialize_resource(res):
+            next.extend(line.encode("utf-8"))
+        if next == prev:
+            log.info(f"OK: {rel_path}")
+            return Result.OK
+        else:
+            write_file(path, next)
+            log.warning(f"Fixed: {rel_path}")
+            return Result.FIXED
     except (UnsupportedFormat, UnicodeDecodeError):
         log.info(f"Skip: {rel_path}")
         return Result.UNSUPPORTED
diff --git a/python/moz/l10n/util/write_file.py b/python/moz/l10n/util/write_file.py
new file mode 100644
index 0000000..019678b
--- /dev/null
+++ b/python/moz/l10n/util/write_file.py
@@ -0,0 +1,58 @@
+# Copyright Mozilla Foundation
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+# http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+from __future__ import annotations
+
+import os
+from errno import EACCES
+from os.path import dirname, join, realpath
+from stat import S_IMODE, S_ISREG
+from uuid import uuid4
+
+
+def write_file(path: str, data: bytes | bytearray) -> None:
+    """
+    Set the contents of the file at `path` to `data` in a single step.
+
+    The data is first written to a hidden temporary file in the same directory,
+    so that readers of `path` will only ever see
+    either its complete previous contents or its complete new contents,
+    even if writing fails or is interrupted.
+    """
+    try:
+        mode = os.stat(path).st_mode
+    except FileNotFoundError:
+        mode = None
+    if mode is not None:
+        if not S_ISREG(mode):
+            # Pipes, devices, etc. can't be replaced
+            with open(path, "wb") as file:
+                file.write(data)
+            return
+        if not os.access(path, os.W_OK):
+            raise PermissionError(EACCES, os.strerror(EACCES), path)
+    path = realpath(path)
+    tmp_path = join(dirname(path), f".{uuid4().hex}.tmp")
+    try:
+        with open(tmp_path, "xb") as file:
+            file.write(data)
+        if mode is not None:
+            os.chmod(tmp_path, S_IMODE(mode))
+        os.replace(tmp_path, path)
+    except BaseException:
+        try:
+            os.unlink(tmp_path)
+        except OSError:
+            pass
+        raise
-- 
2.43.0


From f99c49fcb1c559ec7ff9a5a08759ce876c474fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 02/52] fix: replace output files in one step in moz-l10n build
 & build-file

A failed or killed build left truncated localization files and a truncated
coverage.json behind; the latter made all later build-file runs fail.
---
 python/moz/l10n/bin/build.py      | 24 +++++++++++++++++-------
 python/moz/l10n/bin/build_file.py | 14 ++++++--------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 8e76184..b2eea4f 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -17,9 +17,9 @@ from __future__ import annotations
 import json
 import logging
 from collections import defaultdict
+from collections.abc import Mapping
 from os import makedirs
 from os.path import dirname, exists, join, relpath
-from shutil import copyfile
 from typing import Any
 
 import click
@@ -28,6 +28,7 @@ from moz.l10n.formats import Format, UnsupportedFormat
 from moz.l10n.model import Comment, Entry, Message, Resource, Section
 from moz.l10n.paths.config import L10nConfigPaths
 from moz.l10n.resource import parse_resource, serialize_resource
+from moz.l10n.util.write_file import write_file
 
 log = logging.getLogger(__name__)
 
@@ -133,7 +134,7 @@ def cli(
                 if from_path != tgt_path:
                     copy = "copy" if from_path == l10n_path else "copy-src"
                     log.info(f"{copy} {rel_path}")
-                    copyfile(from_path, tgt_path)
+                    copy_file(from_path, tgt_path)
                 else:
                     log.info(f"skip {rel_path}")
 
@@ -141,8 +142,7 @@ def cli(
         for locale, file_coverage in coverage_data.items():
             coverage_path = join(target, locale, "coverage.json")
             makedirs(dirname(coverage_path), exist_ok=True)
-            with open(coverage_path, "w", encoding="utf-8") as f:
-                json.dump(file_coverage, f, indent=2, sort_keys=True)
+            write_coverage(coverage_path, file_coverage)
 
     log.info("----")
     for locale, (ftl_missing, src_fallback) in sorted(
@@ -153,6 +153,17 @@ def cli(
         log.info(f"  src_fallback {src_fallback:>6}")
 
 
+def copy_file(from_path: str, tgt_path: str) -> None:
+    with open(from_path, "rb") as file:
+        data = file.read()
+    write_file(tgt_path, data)
+
+
+def write_coverage(coverage_path: str, coverage: Mapping[str, object]) -> None:
+    data = json.dumps(coverage, indent=2, sort_keys=True)
+    write_file(coverage_path, data.encode("utf-8"))
+
+
 def write_target_file(
     name: str,
     source_res: Resource[Message],
@@ -225,9 +236,8 @@ def write_target_file(
 
     msg = f"merge {name}"
     log.info(f"{msg} ({msg_delta:+d})" if msg_delta != 0 else msg)
-    with open(tgt_path, "w", encoding="utf-8") as file:
-        for line in serialize_resource(l10n_res, trim_comments=True):
-            file.write(line)
+    tgt_data = "".join(serialize_resource(l10n_res, trim_comments=True))
+    write_file(tgt_path, tgt_data.encode("utf-8"))
     return msg_delta, total_count, missing_ids
 
 
diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 48601f9..fec1177 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -17,14 +17,14 @@ from __future__ import annotations
 import json
 from os import makedirs
 from os.path import dirname, exists, join, relpath
-from shutil import copyfile
 
 import click
-from moz.l10n.bin.build import write_target_file
+from moz.l10n.bin.build import copy_file, write_coverage, write_target_file
 from moz.l10n.bin.utils import set_log_level
 from moz.l10n.formats import UnsupportedFormat
 from moz.l10n.model import Entry
 from moz.l10n.resource import parse_resource, serialize_resource
+from moz.l10n.util.write_file import write_file
 
 
 @click.command()
@@ -69,11 +69,10 @@ def cli(
         missing_ids: list[str | list[str]] = []
         if source_res is None:
             from_path = l10n if l10n is not None and exists(l10n) else source
-            copyfile(from_path, target)
+            copy_file(from_path, target)
         elif l10n is None:
-            with open(target, "w", encoding="utf-8") as file:
-                for line in serialize_resource(source_res, trim_comments=True):
-                    file.write(line)
+            target_data = "".join(serialize_resource(source_res, trim_comments=True))
+            write_file(target, target_data.encode("utf-8"))
             total_count = sum(
                 isinstance(entry, Entry)
                 for section in source_res.sections
@@ -101,8 +100,7 @@ def cli(
                 "missing": missing_ids,
             }
             makedirs(coverage_base, exist_ok=True)
-            with open(coverage_path, "w", encoding="utf-8") as file:
-                json.dump(coverage_data, file, indent=2, sort_keys=True)
+            write_coverage(coverage_path, coverage_data)
     except (OSError, UnsupportedFormat) as error:
         raise SystemExit(error)
 
-- 
2.43.0


From fa5d332014c9bde045f46486017dc954e630b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 03/52] fix: fail the build if a localization can't be accessed

os.path.exists() is false for any error, so the source was silently used
in place of an existing localization (and coverage.json got reset).
---
 python/moz/l10n/bin/build.py      | 17 +++++++++++++----
 python/moz/l10n/bin/build_file.py | 13 +++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index b2eea4f..d2c48c8 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -18,8 +18,8 @@ import json
 import logging
 from collections import defaultdict
 from collections.abc import Mapping
-from os import makedirs
-from os.path import dirname, exists, join, relpath
+from os import makedirs, stat
+from os.path import dirname, join, relpath
 from typing import Any
 
 import click
@@ -130,7 +130,7 @@ def cli(
                         "missing": missing_ids,
                     }
             else:
-                from_path = l10n_path if exists(l10n_path) else source_path
+                from_path = l10n_path if file_exists(l10n_path) else source_path
                 if from_path != tgt_path:
                     copy = "copy" if from_path == l10n_path else "copy-src"
                     log.info(f"{copy} {rel_path}")
@@ -153,6 +153,15 @@ def cli(
         log.info(f"  src_fallback {src_fallback:>6}")
 
 
+def file_exists(path: str) -> bool:
+    """Unlike `os.path.exists()`, raises an error if `path` can't be accessed."""
+    try:
+        stat(path)
+        return True
+    except (FileNotFoundError, NotADirectoryError):
+        return False
+
+
 def copy_file(from_path: str, tgt_path: str) -> None:
     with open(from_path, "rb") as file:
         data = file.read()
@@ -170,7 +179,7 @@ def write_target_file(
     l10n_path: str,
     tgt_path: str,
 ) -> tuple[int, int, list[str | list[str]]]:
-    if exists(l10n_path):
+    if file_exists(l10n_path):
         l10n_res = parse_resource(l10n_path)
         l10n_map: dict[tuple[str, ...], Any] = {
             section.id + entry.id: entry
diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index fec1177..0725b64 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -16,10 +16,15 @@ from __future__ import annotations
 
 import json
 from os import makedirs
-from os.path import dirname, exists, join, relpath
+from os.path import dirname, join, relpath
 
 import click
-from moz.l10n.bin.build import copy_file, write_coverage, write_target_file
+from moz.l10n.bin.build import (
+    copy_file,
+    file_exists,
+    write_coverage,
+    write_target_file,
+)
 from moz.l10n.bin.utils import set_log_level
 from moz.l10n.formats import UnsupportedFormat
 from moz.l10n.model import Entry
@@ -68,7 +73,7 @@ def cli(
         total_count = 0
         missing_ids: list[str | list[str]] = []
         if source_res is None:
-            from_path = l10n if l10n is not None and exists(l10n) else source
+            from_path = l10n if l10n is not None and file_exists(l10n) else source
             copy_file(from_path, target)
         elif l10n is None:
             target_data = "".join(serialize_resource(source_res, trim_comments=True))
@@ -92,7 +97,7 @@ def cli(
             coverage_path = join(coverage_base, "coverage.json")
             coverage_name = relpath(target, coverage_base)
             coverage_data: dict[str, dict[str, object]] = {}
-            if exists(coverage_path):
+            if file_exists(coverage_path):
                 with open(coverage_path, encoding="utf-8") as file:
                     coverage_data = json.load(file)
             coverage_data[coverage_name] = {
-- 
2.43.0


From 6a4c33f494abc70644060537ddef7f89f7b873fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 04/52] fix: list compared messages in source order, read
 source as UTF-8

The order of missing messages depended on PYTHONHASHSEED,
and a JSON source was decoded with the encoding of the system locale.
---
 python/moz/l10n/bin/compare.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 32fa19c..8c80faf 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -108,10 +108,12 @@ def cli(
         return included and not excluded
 
     if source.endswith(".json"):
-        with open(source) as f:
+        with open(source, encoding="utf-8") as f:
             source_data: dict[str, Collection[str]] = json.load(f)
         if ext_include or ext_exclude:
-            source_data = {k: set(v) for k, v in source_data.items() if ext_filter(k)}
+            source_data = {
+                k: dict.fromkeys(v) for k, v in source_data.items() if ext_filter(k)
+            }
     else:
         source_paths: L10nConfigPaths | L10nDiscoverPaths = (
             L10nConfigPaths(source)
@@ -192,8 +194,9 @@ def compare(
 
 def msg_ids(path: str) -> Collection[str]:
     res = parse_resource(path)
+    # A dict rather than a set, to retain the order of messages
     return {
-        ".".join(section.id + entry.id)
+        ".".join(section.id + entry.id): None
         for section in res.sections
         for entry in section.entries
         if isinstance(entry, Entry)
-- 
2.43.0


From 1ba56ce918c3c543baf5e5d4671ec7fafbb5346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 05/52] fix: do not modify the placeholders argument of
 webext_parse_message

Parsing with the same placeholders again left out their declarations.
---
 python/moz/l10n/formats/webext/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 39ffc8b..d65f008 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -72,6 +72,7 @@ def webext_parse_message(
     )
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
+    ph_names: dict[str, str] = {}
     pos = 0
     for m in placeholder.finditer(source):
         text = source[pos : m.start()]
@@ -86,8 +87,8 @@ def webext_parse_message(
             ph = ph_data.get(ph_key, None)
             if ph is None:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
-            elif "_name" in ph:
-                ph_name = ph["_name"]
+            elif ph_key in ph_names:
+                ph_name = ph_names[ph_key]
             else:
                 decl_src = ph["content"]
                 decl_arg_match = pos_arg.fullmatch(decl_src)
@@ -105,7 +106,7 @@ def webext_parse_message(
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
                 declarations[ph_name] = decl_value
-                ph["_name"] = ph_name
+                ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
             pattern.append(exp)
         elif m[2]:
-- 
2.43.0


From 625ebb70ef8bec52fbc8985e69c79d4ec70dc61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 06/52] fix: write migrated resources to the path they were
 read from

With more than one l10n path for a reference path, the localization of
one path was written to (and overwrote) the other.
---
 python/moz/l10n/migrate/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 66bdcd5..874126d 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -128,6 +128,9 @@ class Migrate:
             src_res: Resource[Message] | None = None
             for locale in locales:
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
+                tgt_path, _ = self.paths.target(ref_path, locale=locale)
+                if tgt_path is None:
+                    continue
                 res = ctx.get_resource(ref_path)
                 if res is None:
                     if src_res is None:
@@ -152,7 +155,6 @@ class Migrate:
                     nc = len(changed)
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
-                    tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     if not dry_run:
                         with open(tgt_path, "w", encoding="utf-8") as file:
                             for line in serialize_resource(res):
-- 
2.43.0


From b841cf1b74667f4176671e6be3e6edafd117d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 07/52] fix: do not replace unreadable localizations in a
 migration

A localization that could not be read or parsed was taken to be missing,
and was overwritten with a file holding only the new entries.
Read errors of resources to copy from were also taken to mean that
there is nothing to copy, silently leaving out (parts of) entries.
---
 python/moz/l10n/migrate/__init__.py | 15 +++++++++++++++
 python/moz/l10n/migrate/utils.py    |  4 +++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 874126d..13c86eb 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
+from os import lstat
 from os.path import isdir, isfile, join
 from typing import Any, Callable, Union
 
@@ -133,6 +134,11 @@ class Migrate:
                     continue
                 res = ctx.get_resource(ref_path)
                 if res is None:
+                    if _path_exists(tgt_path):
+                        log.warning(
+                            f"Failed to parse {ref_path} for locale {locale}, leaving it as it is"
+                        )
+                        continue
                     if src_res is None:
                         src_res = _get_empty_resource(
                             join(self.paths.ref_root, ref_path)
@@ -341,6 +347,15 @@ def entry(
     return entry_
 
 
+def _path_exists(path: str) -> bool:
+    """Unlike `os.path.lexists()`, raises an error if `path` can't be accessed."""
+    try:
+        lstat(path)
+        return True
+    except (FileNotFoundError, NotADirectoryError):
+        return False
+
+
 def _get_empty_resource(path: str) -> Resource[Message] | None:
     format = detect_format(path)
 
diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 6743bda..f710ae8 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -56,9 +56,11 @@ class MigrationContext:
         tgt_path, _ = self.paths.target(ref_path, locale=self.locale)
         try:
             res = parse_resource(tgt_path, **self.parse_options)
-        except OSError:
+        except (FileNotFoundError, NotADirectoryError):
             log.debug(f"Resource not available: {tgt_path}")
             res = None
+        except OSError:
+            raise
         except Exception:
             log.debug(f"Parse error: {tgt_path}", exc_info=True)
             res = None
-- 
2.43.0


From 99cb5dcda83a970cf81f3f3a566973b889464d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 08/52] fix: replace localizations in one step when migrating

A failed or killed migration left truncated files behind. Also create
missing parent directories of new localization files.
---
 python/moz/l10n/migrate/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 13c86eb..185f8e0 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,8 +17,8 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
-from os import lstat
-from os.path import isdir, isfile, join
+from os import lstat, makedirs
+from os.path import dirname, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -38,6 +38,7 @@ from moz.l10n.model import (
 )
 from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths
 from moz.l10n.resource import parse_resource, serialize_resource
+from moz.l10n.util.write_file import write_file
 
 from .utils import MigrationContext, get_entry, get_pattern, insert_entry_after
 
@@ -162,9 +163,9 @@ class Migrate:
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     if not dry_run:
-                        with open(tgt_path, "w", encoding="utf-8") as file:
-                            for line in serialize_resource(res):
-                                file.write(line)
+                        tgt_data = "".join(serialize_resource(res))
+                        makedirs(dirname(tgt_path), exist_ok=True)
+                        write_file(tgt_path, tgt_data.encode("utf-8"))
                     all_changes[tgt_path] = changed
         return all_changes
 
-- 
2.43.0


From 03d0c0d1065c982e18a3a6c372424a63902adec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 09/52] fix: raise an error if an ignore file can't be read

Ignored files were included, e.g. fixed, after any error reading the rules.
---
 python/moz/l10n/util/walk_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/util/walk_files.py b/python/moz/l10n/util/walk_files.py
index 39d6fac..6be4f4d 100644
--- a/python/moz/l10n/util/walk_files.py
+++ b/python/moz/l10n/util/walk_files.py
@@ -41,7 +41,7 @@ def walk_files(
         try:
             with open(join(root, ignorepath), encoding="utf-8") as file:
                 ignore += parse_gitignore_file(file)
-        except OSError:
+        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
             pass
     for dir in (join(root, p) for p in dirs) if dirs else (root,):
         for dirpath, dirnames, filenames in walk(dir):
-- 
2.43.0


From 75f3a0738878d648c04f727af1c2709142dc7544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 10/52] fix: make path discovery independent of directory
 listing order

With ties, the order in which the file system lists directory entries
decided which reference and localization directories were picked,
and in which order files were processed.
---
 python/moz/l10n/bin/utils.py       |  4 +++-
 python/moz/l10n/paths/config.py    |  4 ++--
 python/moz/l10n/paths/discover.py  | 13 +++++++++----
 python/moz/l10n/util/walk_files.py |  2 ++
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/bin/utils.py b/python/moz/l10n/bin/utils.py
index a5df375..9b2a796 100644
--- a/python/moz/l10n/bin/utils.py
+++ b/python/moz/l10n/bin/utils.py
@@ -76,7 +76,9 @@ def handle_paths(
 
     elif file_paths:
         root_dir = os.getcwd()
-        path_iter = (path for fp in file_paths for path in glob(fp, recursive=True))
+        path_iter = (
+            path for fp in file_paths for path in sorted(glob(fp, recursive=True))
+        )
 
     else:
         log.error(LOG_ERROR_CONFIG_OR_PATHS)
diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d639850..a184121 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -166,7 +166,7 @@ class L10nConfigPaths:
                         "".join(a + b for a, b in zip(tgt_parts, m.groups())) + tgt_end
                     )
 
-                for ref_file in glob(ref, recursive=True):
+                for ref_file in sorted(glob(ref, recursive=True)):
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
                 if fp:
@@ -175,7 +175,7 @@ class L10nConfigPaths:
                         path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
                     }
                     if fp_match:
-                        for path in fp_match:
+                        for path in sorted(fp_match):
                             self._path_data[path][get_target(path)] = locales
                         fp -= fp_match
             else:
diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d40692d..85b35ed 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -33,6 +33,11 @@ def _dir_contains(dir: str, path: str) -> bool:
     return commonpath((dir, path)) == dir
 
 
+def _path_order(path: str) -> tuple[int, str]:
+    """Shortest paths first, independently of the order in which they're found."""
+    return path.count(sep), path
+
+
 def _locale_dirname(base: str, locale: str, locale_dir_sep: Literal["-", "_"]) -> str:
     if "-" not in locale or isdir(join(base, locale)):
         return locale
@@ -119,7 +124,7 @@ class L10nDiscoverPaths:
         base_dirs: dict[str, list[str]] = {}
         pot_dirs: list[str] = []
         l10n_dirs: list[str] = []
-        # Important! We walk with `topdown=True` to get shortest paths first!
+        # Important! We walk with `topdown=True` to be able to prune hidden directories.
         if ref_root and not _dir_contains(root, ref_root):
             walk_roots: Iterator[tuple[str, list[str], list[str]]] = chain(
                 walk(root, topdown=True), walk(ref_root, topdown=True)
@@ -162,7 +167,7 @@ class L10nDiscoverPaths:
         if ref_dirs_with_files:
             self._ref_root = min(
                 (rd for rd in ref_dirs.items() if rd[0] in ref_dirs_with_files),
-                key=lambda s: s[1],
+                key=lambda s: (s[1], _path_order(s[0])),
             )[0]
         else:
             raise MissingSourceDirectoryError
@@ -191,9 +196,9 @@ class L10nDiscoverPaths:
         # Select final base dir and containing list of locale subdirectories
         # by maximum number of locale subdirectories.
         locale_dirs_: list[str] | None
-        self.base, locale_dirs_ = max(
+        self.base, locale_dirs_ = min(
             base_dirs.items(),
-            key=lambda s: len(s[1]),
+            key=lambda s: (-len(s[1]), _path_order(s[0])),
             default=(None, None),
         )
         if locale_dirs_:
diff --git a/python/moz/l10n/util/walk_files.py b/python/moz/l10n/util/walk_files.py
index 6be4f4d..d15a757 100644
--- a/python/moz/l10n/util/walk_files.py
+++ b/python/moz/l10n/util/walk_files.py
@@ -53,6 +53,8 @@ def walk_files(
                 if check_match(ignore, rp, is_dir=True):
                     del dirnames[idx]
                 idx -= 1
+            dirnames.sort()
+            filenames.sort()
             for fn in filenames:
                 path = join(dirpath, fn)
                 rp = relpath(path, start=root)
-- 
2.43.0


From 8a971302f0b1e16437cb49fa253b8368fd6b8889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 11/52] fix: serialize comments in and after Android
 string-arrays

A comment on a string-array item was counted as one of its items, making
serialization fail; a standalone comment after a string-array was moved
into it, where it is dropped the next time the file is parsed.
---
 python/moz/l10n/formats/android/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 322ab9a..b326e15 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -131,7 +131,7 @@ def android_serialize(
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
             elif not trim_comments:
-                add_comment(string_array or root, entry.comment, True)
+                add_comment(root, entry.comment, True)
 
     etree.cleanup_namespaces(root, {"xliff": xliff_ns})
 
@@ -248,7 +248,7 @@ def set_string_array_item(
         num = int(entry.id[1])
     except ValueError:
         raise ValueError(f"Unsupported entry id: {entry.id}")
-    if num != len(parent):
+    if num != len(parent.findall("item")):
         raise ValueError(f"String-array keys must be ordered: {entry.id}")
     if isinstance(entry.value, SelectMessage):
         raise ValueError(f"Unsupported message type for {entry.id}: {entry.value}")
-- 
2.43.0


From 3bd0d2257ea74593aec9d5af0e0d4f98a776966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 12/52] fix: keep XLIFF file comments where they are

The comment of a <file> was serialized inside it, where it is parsed as
an entry and moved into the <body> the next time. Also, trim it if comments
are to be trimmed.
---
 python/moz/l10n/formats/xliff/serialize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 8e08d62..d41bd1f 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -109,9 +109,12 @@ def xliff_serialize(
                 assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
-        if section.comment:
+        if section.comment and not trim_comments:
             comment = etree.Comment(comment_body(section.comment, indent))
-            parent.addprevious(comment)
+            # For top-level sections, parent is the <body> of a <file>
+            is_body = len(section.id) == 1
+            next_el = cast(etree._Element, parent.getparent()) if is_body else parent
+            next_el.addprevious(comment)
 
         indent += 2
         for entry in section.entries:
-- 
2.43.0


From 420d4760e2a104eb280961603c854fb3852b8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 13/52] fix: parse the contents of .po files only once read

The path was passed on to polib, which read the file again (so the contents
could change or vanish in between), and took the path for the contents of
the file if it no longer existed.
---
 python/moz/l10n/formats/gettext/parse.py   | 20 +++++++++++++++++++-
 python/moz/l10n/resource/parse_resource.py |  8 ++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 45b74ef..543155d 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -15,8 +15,9 @@
 from __future__ import annotations
 
 from collections.abc import Sequence
+from io import StringIO
 
-from polib import pofile
+from polib import detect_encoding, pofile
 
 from ...model import (
     CatchallKey,
@@ -34,6 +35,23 @@ from ...model import (
 from .. import Format
 
 
+class GettextFile(str):
+    """
+    The decoded contents of a .po file,
+    which `pofile()` will parse exactly as if it was reading the file.
+
+    Workaround for https://github.com/izimobil/polib/issues/170
+    """
+
+    def __new__(cls, source: bytes) -> GettextFile:
+        content = str(source, detect_encoding(source))
+        # With a newline, this can't be taken for the path of a file
+        return super().__new__(cls, content + "\n")
+
+    def splitlines(self, keepends: bool = False) -> list[str]:
+        return [*StringIO(self, newline=None)]
+
+
 def gettext_parse(
     source: str | bytes,
     *,
diff --git a/python/moz/l10n/resource/parse_resource.py b/python/moz/l10n/resource/parse_resource.py
index de819a5..01df064 100644
--- a/python/moz/l10n/resource/parse_resource.py
+++ b/python/moz/l10n/resource/parse_resource.py
@@ -20,7 +20,7 @@ from typing import Callable, cast
 from ..formats import Format, UnsupportedFormat, detect_format
 from ..formats.dtd.parse import dtd_parse
 from ..formats.fluent.parse import fluent_parse
-from ..formats.gettext.parse import gettext_parse
+from ..formats.gettext.parse import GettextFile, gettext_parse
 from ..formats.inc.parse import inc_parse
 from ..formats.ini.parse import ini_parse
 from ..formats.plain_json.parse import plain_json_parse
@@ -75,10 +75,10 @@ def parse_resource(
     elif format == Format.fluent:
         return fluent_parse(source)
     elif format == Format.gettext:
-        # Workaround for https://github.com/izimobil/polib/issues/170
-        source_ = cast(str, input) if input_is_file else source
+        if input_is_file:
+            source = GettextFile(cast(bytes, source))
         return gettext_parse(
-            source_, plurals=gettext_plurals, skip_obsolete=gettext_skip_obsolete
+            source, plurals=gettext_plurals, skip_obsolete=gettext_skip_obsolete
         )
     elif format == Format.inc:
         return inc_parse(source)
-- 
2.43.0


From 0614f57e9ce1b6c806f1379e59097174060bff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 14/52] fix: do not replace symbolic links that can't be
 resolved

---
 python/moz/l10n/util/write_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/util/write_file.py b/python/moz/l10n/util/write_file.py
index 019678b..d87f814 100644
--- a/python/moz/l10n/util/write_file.py
+++ b/python/moz/l10n/util/write_file.py
@@ -15,8 +15,8 @@
 from __future__ import annotations
 
 import os
-from errno import EACCES
-from os.path import dirname, join, realpath
+from errno import EACCES, ELOOP
+from os.path import dirname, islink, join, realpath
 from stat import S_IMODE, S_ISREG
 from uuid import uuid4
 
@@ -43,6 +43,9 @@ def write_file(path: str, data: bytes | bytearray) -> None:
         if not os.access(path, os.W_OK):
             raise PermissionError(EACCES, os.strerror(EACCES), path)
     path = realpath(path)
+    if islink(path):
+        # realpath() leaves links that it can't resolve as they are
+        raise OSError(ELOOP, os.strerror(ELOOP), path)
     tmp_path = join(dirname(path), f".{uuid4().hex}.tmp")
     try:
         with open(tmp_path, "xb") as file:
-- 
2.43.0


From 91f6885fbd512f12f9fd09e947d278d8accce540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 15/52] fix: insert migrated messages in the section matching
 their identifier

A message was added to the section of its source message, and so with a
different identifier, or once again by every later run of the migration.
---
 python/moz/l10n/migrate/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index f710ae8..5019859 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -160,7 +160,7 @@ def insert_entry_after(
     Insert `entry` in `res` after the last entry
     with an `.id` matching one of `src_ids`,
     or if none such are found,
-    at the end of the last section matching any of `ids`.
+    at the end of a section with an `.id` matching that of `entry`.
 
     Note that `entry.id` is expected to include its section id,
     which will be dropped before insertion.
@@ -168,16 +168,16 @@ def insert_entry_after(
     If no suitable insertion position is found, raises StopIteration.
     """
     id_set = {id if isinstance(id, tuple) else (id,) for id in src_ids}
+    # Only consider sections in which the entry will retain its identifier
+    sid_len = max(
+        (len(s.id) for s in res.sections if s.id == entry.id[:-1][: len(s.id)]),
+        default=0,
+    )
     last_section: Section[M] | None = None
     for section in reversed(res.sections):
-        if section.id:
-            sid_len = len(section.id)
-            eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
-            if not eid_set:
-                continue
-        else:
-            sid_len = 0
-            eid_set = id_set
+        if section.id != entry.id[:sid_len]:
+            continue
+        eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
         for e_rev_idx, e in enumerate(reversed(section.entries)):
             if isinstance(e, Entry) and e.id in eid_set:
                 if sid_len:
-- 
2.43.0


From 0ce326352d7dc188ce939210114efc3468e6cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 16/52] fix: apply migrations to locales in a consistent order

---
 python/moz/l10n/migrate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 185f8e0..21ab616 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -128,7 +128,7 @@ class Migrate:
                 raise ValueError(f"Invalid reference path: {ref_path}")
 
             src_res: Resource[Message] | None = None
-            for locale in locales:
+            for locale in sorted(locales):
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
                 tgt_path, _ = self.paths.target(ref_path, locale=locale)
                 if tgt_path is None:
-- 
2.43.0


From 87353f492054980d47b82351fa43f065e920d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 17/52] fix: skip .po files with syntax errors when migrating

---
 python/moz/l10n/migrate/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 5019859..7b62b71 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -59,9 +59,10 @@ class MigrationContext:
         except (FileNotFoundError, NotADirectoryError):
             log.debug(f"Resource not available: {tgt_path}")
             res = None
-        except OSError:
-            raise
-        except Exception:
+        except Exception as err:
+            # polib raises OSError without an errno for syntax errors
+            if isinstance(err, OSError) and err.errno is not None:
+                raise
             log.debug(f"Parse error: {tgt_path}", exc_info=True)
             res = None
         self._resources[ref_path] = res
-- 
2.43.0


From b298c17aa085f4d5bd735fb6611ac74d81ce7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:28 +0000
Subject: [PATCH 18/52] fix: let migrations copy messages from the resource
 being created

---
 python/moz/l10n/migrate/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 21ab616..792b7d9 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -150,6 +150,7 @@ class Migrate:
                             )
                             continue
                     res = deepcopy(src_res)
+                    ctx._resources[ref_path] = res
 
                 changed: list[Entry[Message]] = []
                 for id, create in res_add_entries.items():
-- 
2.43.0


From 749f0524b1e09c4c3c9bac1dfc1b6cf708e541c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 19/52] fix: do not skip localizations if a migration's
 reference can't be read

---
 python/moz/l10n/migrate/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 792b7d9..8a47fd3 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -367,7 +367,12 @@ def _get_empty_resource(path: str) -> Resource[Message] | None:
             res = parse_resource(path)
             format = res.format
             assert format
-        except Exception:
+        except (FileNotFoundError, NotADirectoryError):
+            return None
+        except Exception as err:
+            # polib raises OSError without an errno for syntax errors
+            if isinstance(err, OSError) and err.errno is not None:
+                raise
             return None
 
     if format in {Format.ini, Format.xliff}:
-- 
2.43.0


From 85f779a3420a587ff0b90c13915000aec898fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 20/52] fix: build locales in a consistent order

---
 python/moz/l10n/bin/build.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index d2c48c8..eb4427f 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -108,7 +108,9 @@ def cli(
             source = parse_resource(source_path)
         except UnsupportedFormat:
             source = None
-        for locale in locales.intersection(path_locales) if path_locales else locales:
+        for locale in sorted(
+            locales.intersection(path_locales) if path_locales else locales
+        ):
             l10n_path = paths.format_target_path(l10n_path_template, locale)
             rel_path = relpath(l10n_path, base)
             tgt_path = join(target, rel_path)
-- 
2.43.0


From a6f53a2645e94342e50577175bcae089af964395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 21/52] fix: do not share attributes between messages and their
 JSON representation

---
 python/moz/l10n/message/from_json.py | 4 ++--
 python/moz/l10n/message/to_json.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index a19bb63..72ce5fb 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -110,7 +110,7 @@ def _expression(json: dict[str, Any]) -> Expression:
         arg = None
     function = json.get("fn", None)
     options = _options(json["opt"]) if function is not None and "opt" in json else {}
-    return Expression(arg, function, options, json.get("attr", {}))
+    return Expression(arg, function, options, dict(json.get("attr", {})))
 
 
 def _markup(json: dict[str, Any]) -> Markup:
@@ -128,7 +128,7 @@ def _markup(json: dict[str, Any]) -> Markup:
         kind,
         name,
         _options(json.get("opt", {})),
-        json.get("attr", {}),
+        dict(json.get("attr", {})),
     )
 
 
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 257de8a..69af182 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -110,7 +110,7 @@ def _expression(expr: Expression) -> dict[str, Any]:
         if expr.options:
             json["opt"] = _options(expr.options)
     if expr.attributes:
-        json["attr"] = expr.attributes
+        json["attr"] = dict(expr.attributes)
     return json
 
 
@@ -121,7 +121,7 @@ def _markup(markup: Markup) -> dict[str, Any]:
     if markup.options:
         json["opt"] = _options(markup.options)
     if markup.attributes:
-        json["attr"] = markup.attributes
+        json["attr"] = dict(markup.attributes)
     return json
 
 
-- 
2.43.0


From 9e30b032e35f88bc5f380eca93122c41a59f6a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 22/52] fix: do not include memory addresses in error messages

---
 python/moz/l10n/formats/android/parse.py          |  6 +++---
 python/moz/l10n/formats/xliff/common.py           |  2 +-
 python/moz/l10n/formats/xliff/parse.py            | 14 ++++++--------
 python/moz/l10n/formats/xliff/parse_trans_unit.py |  6 ++----
 python/moz/l10n/formats/xliff/parse_xcode.py      |  4 ++--
 python/moz/l10n/formats/xliff/serialize.py        |  4 ++--
 6 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b941d2a..386c717 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -106,7 +106,7 @@ def android_parse(
         source.encode() if isinstance(source, str) else source, parser
     )
     if root.tag != "resources":
-        raise ValueError(f"Unsupported root node: {root}")
+        raise ValueError(f"Unsupported root node: {root.tag!s}")
     if root.text and not root.text.isspace():
         log.warning(f"Unexpected text in resource: {root.text}")
     res: Resource[Message] = Resource(Format.android, [Section((), [])])
@@ -125,7 +125,7 @@ def android_parse(
         for entity in dtd.iterentities():
             name = entity.name
             if not name:
-                raise ValueError(f"Unnamed entity: {entity}")
+                raise ValueError(f"Unnamed entity: {entity.content}")
             value: Message = PatternMessage(list(parse_entity_value(entity.content)))
             entities.append(Entry((name,), value))
         if entities:
@@ -141,7 +141,7 @@ def android_parse(
         else:
             name = el.attrib.get("name", None)
             if not name:
-                raise ValueError(f"Unnamed {el.tag!s} entry: {el}")
+                raise ValueError(f"Unnamed {el.tag!s} entry")
             meta = [Metadata(k, v) for k, v in el.attrib.items() if k != "name"]
 
             if el.tag == "string":
diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index bc3f1b9..e7b56f0 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -55,7 +55,7 @@ def element_as_metadata(
             yield from element_as_metadata(child, child_base, True)
             seen[name] = idx
         else:
-            raise ValueError(f"Unsupported metadata element in {base}: {el}")
+            raise ValueError(f"Unsupported metadata element in {base}: {child!r}")
         if child.tail and not child.tail.isspace():
             yield Metadata(base, child.tail)
         is_empty = False
diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 2c8c8f9..f00e886 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -79,7 +79,7 @@ def xliff_parse(
             raise ValueError(f"Unsupported namespace: {ns}")
 
     if root.tag != f"{ns}xliff":
-        raise ValueError(f"Unsupported root node: {root}")
+        raise ValueError(f"Unsupported root node: {root.tag!s}")
     if root.text and not root.text.isspace():
         raise ValueError(f"Unexpected text in <xliff>: {root.text}")
 
@@ -114,11 +114,11 @@ def xliff_parse(
                     meta += element_as_metadata(child, "header", True)
                 elif child.tag == f"{ns}body":
                     if body:
-                        raise ValueError(f"Duplicate <body> in <file>: {file}")
+                        raise ValueError(f"Duplicate <body> in <file>: {file_name}")
                     body = child
                 else:
                     raise ValueError(
-                        f"Unsupported <{child.tag!s}> element in <file>: {file}"
+                        f"Unsupported <{child.tag!s}> element in <file>: {file_name}"
                     )
                 if child.tail and not child.tail.isspace():
                     raise ValueError(f"Unexpected text in <file>: {child.tail}")
@@ -130,7 +130,7 @@ def xliff_parse(
             res.sections.append(section)
 
             if body is None:
-                raise ValueError(f"Missing <body> in <file>: {file}")
+                raise ValueError(f"Missing <body> in <file>: {file_name}")
             elif body.text and not body.text.isspace():
                 raise ValueError(f"Unexpected text in <body>: {body.text}")
 
@@ -157,9 +157,7 @@ def xliff_parse(
                         ns, [file_name], unit, is_xcode, source_entries
                     )
                 else:
-                    raise ValueError(
-                        f"Unsupported <{unit.tag!s}> element in <body>: {body}"
-                    )
+                    raise ValueError(f"Unsupported <{unit.tag!s}> element in <body>")
                 if unit.tail and not unit.tail.isspace():
                     raise ValueError(f"Unexpected text in <body>: {unit.tail}")
     return res
@@ -217,7 +215,7 @@ def parse_group(
 def parse_bin_unit(unit: etree._Element) -> Entry[Message]:
     id = unit.attrib.get("id", None)
     if id is None:
-        raise ValueError(f'Missing "id" attribute for <bin-unit>: {unit}')
+        raise ValueError('Missing "id" attribute for <bin-unit>')
     meta = attrib_as_metadata(unit, None, ("id",))
     meta += element_as_metadata(unit, "", False)
     msg = PatternMessage([Expression(None, attributes={"bin-unit": True})])
diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 0dcfad7..66e7a84 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -38,7 +38,7 @@ def parse_trans_unit(
 ) -> Entry[Message]:
     id = unit.attrib.get("id", None)
     if id is None:
-        raise ValueError(f'Missing "id" attribute for <trans-unit>: {unit}')
+        raise ValueError('Missing "id" attribute for <trans-unit>')
     meta = attrib_as_metadata(unit, None, ("id",))
     if unit.text and not unit.text.isspace():
         raise ValueError(f"Unexpected text in <trans-unit>: {unit.text}")
@@ -54,9 +54,7 @@ def parse_trans_unit(
             name = pretty_name(el, str(el.tag))
             if name == msg_name:
                 if msg_el:
-                    raise ValueError(
-                        f"Duplicate <{msg_name}> in <trans-unit> {id}: {unit}"
-                    )
+                    raise ValueError(f"Duplicate <{msg_name}> in <trans-unit> {id}")
                 msg_el = el
                 meta += attrib_as_metadata(el, msg_name)
             else:
diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 6038374..69266ad 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -77,9 +77,9 @@ def parse_xliff_xcstrings(
     units: dict[str, XcstringsMsgData] = defaultdict(XcstringsMsgData)
     for unit in body:
         if unit.tag != f"{ns}trans-unit":
-            raise ValueError(f"Unsupported <{unit.tag!s}> element in <body>: {body}")
+            raise ValueError(f"Unsupported <{unit.tag!s}> element in <body>")
         if "id" not in unit.attrib:
-            raise ValueError(f'Missing "id" attribute for <trans-unit>: {unit}')
+            raise ValueError('Missing "id" attribute for <trans-unit>')
         if unit.text and not unit.text.isspace():
             raise ValueError(f"Unexpected text in <trans-unit>: {unit.text}")
         parse_xliff_xcstrings_unit(ns, units, unit, from_source)
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index d41bd1f..158c5e2 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -217,7 +217,7 @@ def add_unit(
             if msg_el is None:
                 source = unit.find("source")
                 if source is None:
-                    raise ValueError(f"Invalid entry with no source: {unit}")
+                    raise ValueError(f"Invalid entry with no source: {unit.get('id')}")
                 msg_el = etree.Element("target")
                 source.addnext(msg_el)
         set_pattern(msg_el, pattern)
@@ -231,7 +231,7 @@ def add_unit(
         if msg_el is None:
             prev_el = unit.find("target") or unit.find("source")
             if prev_el is None:
-                raise ValueError(f"Invalid entry with no source: {unit}")
+                raise ValueError(f"Invalid entry with no source: {unit.get('id')}")
         else:
             prev_el = msg_el
         note = etree.Element("note")
-- 
2.43.0


From 563a2db8b71a8313bd1504b02bd2ac3efd5043fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 23/52] fix: raise an error if a directory can't be listed in
 walk_files

---
 python/moz/l10n/util/walk_files.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/util/walk_files.py b/python/moz/l10n/util/walk_files.py
index d15a757..c6952ef 100644
--- a/python/moz/l10n/util/walk_files.py
+++ b/python/moz/l10n/util/walk_files.py
@@ -21,6 +21,11 @@ from os.path import isdir, join, relpath
 from gitignorant import Rule, check_match, parse_gitignore_file
 
 
+def _walk_error(error: OSError) -> None:
+    if not isinstance(error, (FileNotFoundError, NotADirectoryError)):
+        raise error
+
+
 def walk_files(
     root: str, dirs: list[str] | None = None, ignorepath: str | None = ".l10n-ignore"
 ) -> Iterator[str]:
@@ -44,7 +49,7 @@ def walk_files(
         except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
             pass
     for dir in (join(root, p) for p in dirs) if dirs else (root,):
-        for dirpath, dirnames, filenames in walk(dir):
+        for dirpath, dirnames, filenames in walk(dir, onerror=_walk_error):
             idx = len(dirnames) - 1
             while idx >= 0:
                 rp = relpath(join(dirpath, dirnames[idx]), start=root)
-- 
2.43.0


From e5a498ecce2ffa2ab1d1b06818956e9b8114f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 24/52] fix: load a config only once if it's included by its
 includes

---
 python/moz/l10n/paths/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index a184121..bccb65a 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -184,7 +184,7 @@ class L10nConfigPaths:
         self._includes: list[L10nConfigPaths] = []
         if "includes" in toml:
             if _seen is None:
-                _seen = set()
+                _seen = {normpath(cfg_path)}
             for incl in toml["includes"]:
                 incl_path: str = incl["path"]
                 if env_map:
-- 
2.43.0


From 4648ed85f4f16460a86157f3c808f72ab4bf2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 25/52] fix: Support relative root directories in
 L10nDiscoverPaths & compare --source

With '.' as its root, discovery never found a reference directory, and
compare joined a relative --source with itself.
---
 python/moz/l10n/bin/compare.py    |  2 +-
 python/moz/l10n/paths/discover.py | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 8c80faf..27535dc 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -118,7 +118,7 @@ def cli(
         source_paths: L10nConfigPaths | L10nDiscoverPaths = (
             L10nConfigPaths(source)
             if source.endswith(".toml")
-            else L10nDiscoverPaths(source, source)
+            else L10nDiscoverPaths(source, ".")
         )
         path0 = abspath(paths[0])
         locale0 = basename(path0)
diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 85b35ed..7285935 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -17,8 +17,8 @@ from __future__ import annotations
 import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
-from os import sep, walk
-from os.path import commonpath, dirname, isdir, join, normpath, relpath, splitext
+from os import pardir, sep, walk
+from os.path import dirname, isdir, join, normpath, relpath, splitext
 from typing import Literal
 
 from moz.l10n.formats import l10n_extensions
@@ -30,7 +30,7 @@ locale_id = re.compile(
 
 
 def _dir_contains(dir: str, path: str) -> bool:
-    return commonpath((dir, path)) == dir
+    return relpath(path, dir).split(sep, 1)[0] != pardir
 
 
 def _path_order(path: str) -> tuple[int, str]:
@@ -165,10 +165,11 @@ class L10nDiscoverPaths:
             dir for dir in ref_dirs if any(_dir_contains(dir, ld) for ld in l10n_dirs)
         ]
         if ref_dirs_with_files:
-            self._ref_root = min(
+            ref_dir, _ = min(
                 (rd for rd in ref_dirs.items() if rd[0] in ref_dirs_with_files),
                 key=lambda s: (s[1], _path_order(s[0])),
-            )[0]
+            )
+            self._ref_root = normpath(ref_dir)
         else:
             raise MissingSourceDirectoryError
 
@@ -215,7 +216,7 @@ class L10nDiscoverPaths:
             self.locale_dir_sep = "-"
 
         self.ref_paths = (
-            list(walk_files(self._ref_root, ignorepath=ignorepath))
+            [normpath(p) for p in walk_files(self._ref_root, ignorepath=ignorepath)]
             if isdir(self._ref_root)
             else []
         )
@@ -251,7 +252,7 @@ class L10nDiscoverPaths:
         locale_root = join(self._base(), "{locale}")
         paths: dict[tuple[str, str], list[str] | None] = {}
         for ref_path in self.ref_paths:
-            target = ref_path.replace(self._ref_root, locale_root, 1)
+            target = join(locale_root, relpath(ref_path, self._ref_root))
             if target.endswith(".pot"):
                 target = target[:-1]
             paths[(ref_path, target)] = self.locales
@@ -273,7 +274,7 @@ class L10nDiscoverPaths:
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
         locale_root = join(self._base(), "{locale}")
-        target = ref_path.replace(self._ref_root, locale_root, 1)
+        target = join(locale_root, relpath(ref_path, self._ref_root))
         if target.endswith(".pot"):
             target = target[:-1]
         if locale is None:
@@ -296,7 +297,7 @@ class L10nDiscoverPaths:
         base = self._base()
         locale, *path_parts = normpath(relpath(join(base, target), base)).split(sep)
         if path_parts and locale_id.fullmatch(locale):
-            ref_path = join(self._ref_root, *path_parts)
+            ref_path = normpath(join(self._ref_root, *path_parts))
             vars = {"locale": locale.replace("_", "-")}
             if ref_path in self.ref_paths:
                 return ref_path, vars
-- 
2.43.0


From 13594682722685f524ab5d676c2577831fb809f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 26/52] fix: Allow build-file --target to be a file name in the
 current directory

---
 python/moz/l10n/bin/build_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 0725b64..2fb709c 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -69,7 +69,7 @@ def cli(
             source_res = parse_resource(source)
         except UnsupportedFormat:
             source_res = None
-        makedirs(dirname(target), exist_ok=True)
+        makedirs(dirname(target) or ".", exist_ok=True)
         total_count = 0
         missing_ids: list[str | list[str]] = []
         if source_res is None:
-- 
2.43.0


From 34d56b49ae84812792e22a1f137056e1d7ff8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 27/52] fix: Report a localization compared as '.' under its
 locale

---
 python/moz/l10n/bin/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 27535dc..f86d6d5 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import json
 from collections import defaultdict
-from os.path import abspath, basename, dirname, isdir, join, normpath, relpath
+from os.path import abspath, basename, dirname, isdir, join, relpath
 from typing import Collection
 
 import click
@@ -146,7 +146,7 @@ def cli(
     for path in paths:
         if not isdir(path):
             continue
-        lc = basename(normpath(path))
+        lc = basename(abspath(path))
         errors, missing = compare(source_data, path)
         if json_output:
             json_res[lc] = {
-- 
2.43.0


From 6a994bcbca6c3353e695d771dee17168c6a4893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 28/52] fix: Support relative paths in L10nConfigPaths with
 {l10n_base} & includes

A relative base was applied twice: as the value of {l10n_base} and when
joining the target path with it, and when looking up the target or reference
of a path in an included config.
---
 python/moz/l10n/paths/config.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index bccb65a..929f453 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -18,8 +18,8 @@ import sys
 from collections import defaultdict
 from collections.abc import Callable, Iterator
 from glob import glob
-from os import sep
-from os.path import dirname, isfile, join, normpath, relpath
+from os import curdir, sep
+from os.path import abspath, dirname, isabs, isfile, join, normpath, relpath
 from re import Pattern, compile
 from typing import Any, cast
 
@@ -297,7 +297,7 @@ class L10nConfigPaths:
         self, format_map: dict[str, str] | None
     ) -> Iterator[tuple[tuple[str, str], list[str] | None]]:
         lc_map = PartialMap(format_map or ())
-        lc_map["l10n_base"] = self._base
+        lc_map["l10n_base"] = curdir  # Resolved from self._base below
         for ref, pd in self._path_data.items():
             for target, locales in pd.items():
                 target = target.format_map(lc_map)
@@ -365,15 +365,20 @@ class L10nConfigPaths:
 
         if target is None or locales is None:
             for incl in self._includes:
+                incl_ref_path = (
+                    norm_ref_path
+                    if isabs(norm_ref_path)
+                    else relpath(norm_ref_path, incl._ref_root)
+                )
                 target_ = incl.target(
-                    norm_ref_path, format_map=format_map, locale=locale
+                    incl_ref_path, format_map=format_map, locale=locale
                 )
                 if target_[0] is not None:
                     return target_
             return None, set()
 
         fmt_map = PartialMap(format_map or ())
-        fmt_map["l10n_base"] = self._base
+        fmt_map["l10n_base"] = curdir  # Resolved from self._base below
         path = target.format_map(fmt_map)
         if path.endswith(".pot"):
             path = path[:-1]
@@ -422,7 +427,7 @@ class L10nConfigPaths:
                     if pot_path in self._path_data:
                         return pot_path, vars
         for incl in self._includes:
-            res = incl.find_reference(abs_target)
+            res = incl.find_reference(abspath(abs_target))
             if res is not None:
                 return res
         return None
-- 
2.43.0


From c230772cbec2326a19fb38ba023afba74f887715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 29/52] fix: Match all but stars & variables literally in
 L10nConfigPaths paths

Configs failed to load or found no files when some directory's name included
a special character like + or [, or when a path had the same variable twice.
A * could match multiple directories when mapping a reference to its target,
and a . any character when looking up the reference of a target.
---
 python/moz/l10n/paths/config.py | 62 +++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 929f453..674a8ae 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -18,9 +18,10 @@ import sys
 from collections import defaultdict
 from collections.abc import Callable, Iterator
 from glob import glob
+from itertools import zip_longest
 from os import curdir, sep
 from os.path import abspath, dirname, isabs, isfile, join, normpath, relpath
-from re import Pattern, compile
+from re import DOTALL, Pattern, compile, escape
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -31,7 +32,8 @@ else:
     from tomli import load
 
 path_stars = compile(r"[*](?:[*](?:[/\\][*]*)?)?")
-path_var = compile(r"{(\w+)}")
+special_chars = compile(r"[?\[]")
+path_special = compile(path_stars.pattern + r"|{(\w+)}")
 
 _DEFAULT_LOCALE_MAP: dict[str, Callable[[str], str]] = {
     "locale": lambda locale: locale,
@@ -49,21 +51,33 @@ These are applied by `L10nConfigPaths` unless overridden via `locale_map`.
 """
 
 
-def path_regex(path: str) -> Pattern[str]:
+def path_regex(path: str, *, with_vars: bool = True) -> Pattern[str]:
     """
     Captures * groups as indexed and {vars} as named.
+    Everything else in `path` is matched literally.
     Expects `path` to use `/` as separator.
     """
     if path.startswith("{l10n_base}/"):
         path = path[12:]
-    path = path_stars.sub(
-        lambda m: (
-            "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
-        ),
-        path,
-    )
-    path = path_var.sub(r"(?P<\1>[^/]*)", path)
-    return compile(path)
+    regex = ""
+    pos = 0
+    seen: set[str] = set()
+    for m in path_special.finditer(path):
+        regex += escape(path[pos : m.start()])
+        pos = m.end()
+        name = m[1]
+        if name is None:
+            regex += (
+                "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
+            )
+        elif not with_vars:
+            regex += escape(m[0])
+        elif name in seen:
+            regex += f"(?P={name})"
+        else:
+            seen.add(name)
+            regex += f"(?P<{name}>[^/]*)"
+    return compile(regex + escape(path[pos:]), DOTALL)
 
 
 class PartialMap(dict[str, str]):
@@ -128,12 +142,12 @@ class L10nConfigPaths:
         env = toml.get("env", None)
         env_map = PartialMap(env) if env else None
 
-        self._templates: list[tuple[str, Pattern[str]]] = []  #
+        self._templates: list[tuple[list[str], Pattern[str]]] = []
         """
         `[(ref, target)]`
 
         To find references for targets,
-        retains a `ref` string with `{}` slots for the corresponding
+        retains the `ref` parts around the corresponding
         `*` and `**` parts of the template paths,
         which are also the indexed groups captured in `target`.
         """
@@ -147,16 +161,14 @@ class L10nConfigPaths:
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
             if env_map:
                 target = target.format_map(env_map)
-            self._templates.append((path_stars.sub("{}", ref), path_regex(target)))
+            self._templates.append((path_stars.split(ref), path_regex(target)))
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 if ref.count("*") != target.count("*"):
                     raise ValueError(
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
-                ref_re = compile(
-                    path_stars.sub("(.*)", ref.replace(sep, "/").replace(".", r"\."))
-                )
+                ref_re = path_regex(ref.replace(sep, "/"), with_vars=False)
                 *tgt_parts, tgt_end = path_stars.split(target)
 
                 def get_target(ref_file: str) -> str:
@@ -166,11 +178,12 @@ class L10nConfigPaths:
                         "".join(a + b for a, b in zip(tgt_parts, m.groups())) + tgt_end
                     )
 
-                for ref_file in sorted(glob(ref, recursive=True)):
+                # Only stars are special in reference paths
+                ref_glob = special_chars.sub(r"[\g<0>]", ref)
+                for ref_file in sorted(glob(ref_glob, recursive=True)):
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
                 if fp:
-                    ref_re = path_regex(ref.replace(sep, "/"))
                     fp_match = {
                         path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
                     }
@@ -413,13 +426,18 @@ class L10nConfigPaths:
             match = pattern.fullmatch(rel_target)
             if match:
                 vars = match.groupdict()
-                var_spans = {match.span(name) for name in vars}
+                var_indices = pattern.groupindex.values()
                 star_values = [
                     group
                     for idx, group in enumerate(match.groups())
-                    if match.span(idx + 1) not in var_spans
+                    if idx + 1 not in var_indices
                 ]
-                ref_path = normpath(ref.format(*star_values))
+                star_values = star_values[: len(ref) - 1]
+                ref_path = normpath(
+                    "".join(
+                        a + b for a, b in zip_longest(ref, star_values, fillvalue="")
+                    )
+                )
                 if ref_path in self._path_data:
                     return ref_path, vars
                 if ref_path.endswith(".po"):
-- 
2.43.0


From b8f504dd6ea3120f4adf9c3442b7c39117930e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 30/52] fix: Find the reference of a .po target in
 L10nConfigPaths if its l10n path ends in .pot

---
 python/moz/l10n/paths/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 674a8ae..00e2ee8 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -161,7 +161,8 @@ class L10nConfigPaths:
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
             if env_map:
                 target = target.format_map(env_map)
-            self._templates.append((path_stars.split(ref), path_regex(target)))
+            target_re = path_regex(target[:-1] if target.endswith(".pot") else target)
+            self._templates.append((path_stars.split(ref), target_re))
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 if ref.count("*") != target.count("*"):
-- 
2.43.0


From d40683cbd1ad534be2001c49a0949128b759022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 31/52] fix: a path for all locales in one config is not
 limited by another

If several configurations included together list the same reference and target paths, and only some of them limit the locales, L10nConfigPaths.all() left out the locales of the others. build then succeeded without writing these files.
---
 python/moz/l10n/paths/config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 00e2ee8..1812376 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -298,13 +298,17 @@ class L10nConfigPaths:
         """
         all: dict[tuple[str, str], list[str] | None] = {}
         for key, locales in self._all(format_map):
-            prev = all.get(key, None)
-            if prev is None:
+            if key not in all:
                 all[key] = locales
-            elif locales:
+                continue
+            prev = all[key]
+            if prev and locales:
                 locales_ = list(set(prev).union(locales))
                 locales_.sort()
                 all[key] = locales_
+            else:
+                # At least one entry is not limited to some locales
+                all[key] = None
         return all
 
     def _all(
-- 
2.43.0


From 21e6b347ce96bab3820551848ff3915ee1bebbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 32/52] fix: force_paths are used by every matching [[paths]]
 entry

---
 python/moz/l10n/paths/config.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 1812376..2746369 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -185,13 +185,9 @@ class L10nConfigPaths:
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
                 if fp:
-                    fp_match = {
-                        path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
-                    }
-                    if fp_match:
-                        for path in sorted(fp_match):
-                            self._path_data[path][get_target(path)] = locales
-                        fp -= fp_match
+                    for ref_file in sorted(fp):
+                        if ref_re.fullmatch(ref_file.replace(sep, "/")):
+                            self._path_data[ref_file][get_target(ref_file)] = locales
             else:
                 self._path_data[ref][target] = locales
 
-- 
2.43.0


From 9489be5315895ce1b83856ac858be0f4f13d7faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 33/52] fix: Migrate.apply() reports all entries added to a
 file, also with several keys for it

---
 python/moz/l10n/migrate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 8a47fd3..3dbfdf5 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -167,7 +167,7 @@ class Migrate:
                         tgt_data = "".join(serialize_resource(res))
                         makedirs(dirname(tgt_path), exist_ok=True)
                         write_file(tgt_path, tgt_data.encode("utf-8"))
-                    all_changes[tgt_path] = changed
+                    all_changes.setdefault(tgt_path, []).extend(changed)
         return all_changes
 
 
-- 
2.43.0


From 12be12882b33c6b38ca8a79fb19e5b8a47ef7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 34/52] fix: load a config only once also if it's included by
 different relative paths

---
 python/moz/l10n/paths/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 2746369..402ff50 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -194,14 +194,15 @@ class L10nConfigPaths:
         self._includes: list[L10nConfigPaths] = []
         if "includes" in toml:
             if _seen is None:
-                _seen = {normpath(cfg_path)}
+                _seen = {abspath(cfg_path)}
             for incl in toml["includes"]:
                 incl_path: str = incl["path"]
                 if env_map:
                     incl_path = incl_path.format_map(env_map)
                 incl_path = normpath(join(self._ref_root, incl_path))
-                if incl_path not in _seen:
-                    _seen.add(incl_path)
+                incl_abspath = abspath(incl_path)
+                if incl_abspath not in _seen:
+                    _seen.add(incl_abspath)
                     self._includes.append(
                         L10nConfigPaths(
                             incl_path,
-- 
2.43.0


From e26b9cdec42055319079699ca703e88bf1e33e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 35/52] fix: keep all plural forms when serializing gettext,
 whatever the Plural-Forms header says

---
 python/moz/l10n/formats/gettext/serialize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ca065f2..df5272e 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -99,6 +99,14 @@ def gettext_serialize(
                         )
                         for keys, pattern in msg.variants.items()
                     )
+                    # Keep also any variants beyond those of the Plural-Forms header
+                    nforms = nplurals
+                    for key, _ in variants:
+                        if plurals:
+                            if key in plurals:
+                                nforms = max(nforms, plurals.index(key) + 1)
+                        elif key.isdecimal():
+                            nforms = max(nforms, int(key) + 1)
                     pe.msgstr_plural = {
                         idx: next(
                             (
@@ -108,7 +116,7 @@ def gettext_serialize(
                             ),
                             "",
                         )
-                        for idx in range(nplurals)
+                        for idx in range(nforms)
                     }
                 else:
                     raise ValueError(
-- 
2.43.0


From 2bb391d0d02a64bf9b35fd2ffda957e03ce74011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 36/52] fix: escape # and ! at the start of .properties keys

---
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 83a2075..4d90164 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -109,6 +109,8 @@ def properties_serialize(
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
                 key = key.translate(special_key_trans)
+                if key.startswith(("#", "!")):
+                    key = "\\" + key
 
                 value: str
                 msg = entry.value
-- 
2.43.0


From f359ea91f67f185fc9c182ef31b6c7a0371fae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 37/52] fix: only take line feeds for line breaks in .ini
 values

---
 python/moz/l10n/formats/ini/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 6be53ae..1041c87 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -80,7 +80,7 @@ def ini_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
-                lines = value.rstrip().splitlines()
+                lines = value.rstrip().split("\n")
                 yield (
                     f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
                     + "\n"
-- 
2.43.0


From 330af7365596c23ee490e2ed1419ba9b3219a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 38/52] fix: do not add whitespace to XLIFF targets which start
 with an element

---
 python/moz/l10n/formats/xliff/serialize.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 158c5e2..b1ac60f 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -178,6 +178,8 @@ def xliff_serialize(
             else:
                 fn = section.id[0]
                 raise ValueError(f"Unsupported message {id} in file: {fn}")
+    for el in root.iter("{*}source", "{*}target", "{*}seg-source"):
+        keep_inline(el)
     yield etree.tostring(root, encoding="unicode", pretty_print=True)
 
 
@@ -186,6 +188,7 @@ def xliff_serialize_message(msg: Message) -> str:
         raise ValueError(f"Unsupported message: {msg}")
     target = etree.Element("target")
     set_pattern(target, msg.pattern)
+    keep_inline(target)
     str = etree.tostring(target, encoding="unicode", pretty_print=True).strip()
     if str == "<target/>":
         return ""
@@ -195,6 +198,12 @@ def xliff_serialize_message(msg: Message) -> str:
     return str[8:-9]
 
 
+def keep_inline(el: etree._Element) -> None:
+    """Do not let pretty-printing add whitespace to contents with no text of its own."""
+    if len(el) > 0 and not el.text:
+        el.text = ""
+
+
 def add_unit(
     unit: etree._Element,
     comment: str,
-- 
2.43.0


From f30a70cfd7703df220c1d05dfd0c081c35914ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 39/52] fix: serialize Android resources as well-formed XML

---
 python/moz/l10n/formats/android/serialize.py | 25 ++++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index b326e15..963944c 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -159,7 +159,7 @@ def android_serialize(
         for entity in entities:
             yield f"  {entity}\n"
         yield "]>\n"
-    yield etree.tostring(root, encoding="unicode", method="html")
+    yield xml_string(root)
     yield "\n"
 
 
@@ -174,9 +174,7 @@ def android_serialize_message(msg: Message | str, *, allow_cdata: bool = False)
 
     target = etree.Element("string")
     set_pattern_message(target, msg, allow_cdata=allow_cdata)
-    string = etree.tostring(
-        target, encoding="unicode", method="html", pretty_print=True
-    ).strip()
+    string = xml_string(target).strip()
     if string == "<string/>":
         return ""
     if not string.startswith("<string>"):
@@ -185,6 +183,17 @@ def android_serialize_message(msg: Message | str, *, allow_cdata: bool = False)
     return string[8:-9]
 
 
+html_void_elements = {"area", "br", "col", "hr", "img", "input", "link", "wbr"}
+
+
+def xml_string(root: etree._Element) -> str:
+    for el in root.iter("*"):
+        if len(el) == 0 and not el.text and el.tag not in html_void_elements:
+            # Use explicit closing tags
+            el.text = ""
+    return etree.tostring(root, encoding="unicode")
+
+
 def get_attrib(name: str, meta: list[Metadata]) -> dict[str, str]:
     res = {"name": name}
     for m in meta:
@@ -288,9 +297,7 @@ def set_pattern_message(
         el.text = escape_part(msg)
         escape_pattern(el)
         if allow_cdata and tag_like.search(el.text) is not None:
-            # The manual wrapper is a workaround for
-            # https://bugs.launchpad.net/lxml/+bug/2111509
-            el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+            el.text = etree.CDATA(el.text)
     elif isinstance(msg, PatternMessage) and not msg.declarations:
         set_pattern(el, msg.pattern, allow_cdata=allow_cdata)
     else:
@@ -392,9 +399,7 @@ def set_pattern(
         and el.text
         and tag_like.search(el.text) is not None
     ):
-        # The manual wrapper is a workaround for
-        # https://bugs.launchpad.net/lxml/+bug/2111509
-        el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        el.text = etree.CDATA(el.text)
 
 
 def entity_name(part: Expression) -> str | None:
-- 
2.43.0


From fa5d46a30922a5c2397a28b561cc3d37725a92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 40/52] fix: unescape Android HTML tags, keep comments within
 and after strings, refuse processing instructions

---
 python/moz/l10n/formats/android/parse.py | 42 ++++++++++++++++++------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 386c717..73ee2cd 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Callable, Iterable, Iterator
-from re import ASCII, compile, match
+from re import ASCII, Match, compile, match
 from typing import Literal, cast
 
 from lxml import etree
@@ -145,6 +145,7 @@ def android_parse(
             meta = [Metadata(k, v) for k, v in el.attrib.items() if k != "name"]
 
             if el.tag == "string":
+                comment.extend(c.text for c in el.iter(etree.Comment))
                 value = PatternMessage(
                     list(parse_pattern(el, ascii_spaces, literal_quotes))
                 )
@@ -171,6 +172,7 @@ def android_parse(
                     if isinstance(item, etree._Comment):
                         comment.append(item.text)
                     elif item.tag == "item":
+                        comment.extend(c.text for c in item.iter(etree.Comment))
                         value = PatternMessage(
                             list(parse_pattern(item, ascii_spaces, literal_quotes))
                         )
@@ -187,6 +189,14 @@ def android_parse(
                         log.warning(
                             f"Unexpected text in {name} string-array: {item.tail}"
                         )
+                if comment:
+                    # Comments after the last item
+                    if idx > 0:
+                        last = entries[-1]
+                        cs = comment_str(comment)
+                        last.comment = f"{last.comment}\n\n{cs}" if last.comment else cs
+                    else:
+                        entries.append(Comment(comment_str(comment)))
 
             else:
                 es = etree.tostring(el, encoding="unicode")
@@ -195,6 +205,8 @@ def android_parse(
                 comment.clear()
         if el.tail and not el.tail.isspace():
             log.warning(f"Unexpected text in resource: {el.tail}")
+    if comment:
+        entries.append(Comment(comment_str(comment)))
     return res
 
 
@@ -296,6 +308,7 @@ def parse_plurals(
             key = item.attrib.get("quantity", None)
             if key not in plural_categories:
                 raise ValueError(f"Invalid quantity for {name} plurals item: {key}")
+            var_comment.extend(c.text for c in item.iter(etree.Comment))
             if var_comment:
                 add_comment(
                     (f"{key}: {c}" for c in var_comment if c)
@@ -311,6 +324,8 @@ def parse_plurals(
             raise ValueError(f"Unsupported {name} plurals child: {cs}")
         if item.tail and not item.tail.isspace():
             log.warning(f"Unexpected text in {name} plurals: {item.tail}")
+    if var_comment:
+        add_comment(var_comment)
     return msg
 
 
@@ -343,7 +358,9 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
     for child in el:
         if isinstance(child, etree._Entity):
             yield Expression(VariableRef(child.name), "entity")
-        else:
+        elif isinstance(child, etree._ProcessingInstruction):
+            raise ValueError(f"Unsupported processing instruction: {child.target}")
+        elif not isinstance(child, etree._Comment):
             name = (
                 f"{child.prefix}:{etree.QName(cast(str, child.tag)).localname}"
                 if child.prefix
@@ -437,11 +454,21 @@ inline_re = compile(
     r"(<[^%>]+>)|"
     r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
 )
+escape_re = compile(r"\\u([0-9a-fA-F]{4})|\\(.)")
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
 var_idx_re = compile(r"[1-9]$")
 
 
+def unescape(m: Match[str]) -> str:
+    if m[1]:
+        # Unicode escape
+        return chr(int(m[1], base=16))
+    # Escaped character
+    c = m[2]
+    return "\n" if c == "n" else "\t" if c == "t" else c
+
+
 def parse_inline(
     iter: Iterable[str | Expression | Markup],
 ) -> Iterator[str | Expression | Markup]:
@@ -465,17 +492,12 @@ def parse_inline(
                         acc += part[pos:start]
                 if at_br:
                     at_br = False
-                if m[1]:
-                    # Unicode escape
-                    acc += chr(int(m[1], base=16))
-                elif m[2]:
-                    # Escaped character
-                    c = m[2]
-                    acc += "\n" if c == "n" else "\t" if c == "t" else c
+                if m[1] or m[2]:
+                    acc += unescape(m)
                 elif m[3]:
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
-                    tag = m[3]
+                    tag = escape_re.sub(unescape, m[3])
                     if acc.endswith(" ") and block_tag_re.match(tag):
                         yield acc[:-1] + "\n"
                         acc = ""
-- 
2.43.0


From 21c0de8f4d517889808b0c9e29103209b4bf0b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 41/52] fix: support several DTD includes in a row

---
 python/moz/l10n/formats/dtd/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index fb6aae3..932c92c 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -67,9 +67,12 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     resource = Resource(Format.dtd, [Section((), entries)])
 
     def handle_other_content(entry: str) -> None:
-        if sm := re_system_include.fullmatch(entry):
+        pos = 0
+        while sm := re_system_include.match(entry, pos):
             resource.meta.append(Metadata(sm[1], sm[2][1:-1]))
-        elif entry and not entry.isspace():
+            pos = sm.end()
+        rest = entry[pos:]
+        if rest and not rest.isspace():
             raise ValueError(f"Unexpected content in DTD: {entry}")
 
     pos = 0
-- 
2.43.0


From 16e84e96c9a44c85a4fdaf1306036635986b2b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 42/52] fix: keep Fluent comments with empty lines in files
 with CRLF line ends

---
 python/moz/l10n/formats/fluent/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1bcecb2..9a8ea67 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -63,6 +63,8 @@ def fluent_parse(
         lpm = None  # Source is required for line positions
     else:
         source_str = source if isinstance(source, str) else str(source, "utf-8")
+        # With CRLF line ends, FluentParser splits comments at their empty lines
+        source_str = source_str.replace("\r\n", "\n")
         fluent_res = FluentParser(with_spans=with_linepos).parse(source_str)
         lpm = LinePosMapper(source_str) if with_linepos else None
 
@@ -149,6 +151,7 @@ def fluent_parse_entry(
     Original Fluent function names are stored as `@fluent-fn` expression attributes.
     """
     if isinstance(source, str):
+        source = source.replace("\r\n", "\n")
         ftl_entry = FluentParser(with_spans=with_linepos).parse_entry(source)
         lpm = LinePosMapper(source) if with_linepos else None
     else:
-- 
2.43.0


From 8088d7d81a5a0948373aa08259a4976d4148a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 43/52] fix: do not build files outside the target directory

---
 python/moz/l10n/bin/build.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index eb4427f..38e2441 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -19,7 +19,7 @@ import logging
 from collections import defaultdict
 from collections.abc import Mapping
 from os import makedirs, stat
-from os.path import dirname, join, relpath
+from os.path import dirname, isabs, join, normpath, pardir, relpath, sep
 from typing import Any
 
 import click
@@ -113,7 +113,7 @@ def cli(
         ):
             l10n_path = paths.format_target_path(l10n_path_template, locale)
             rel_path = relpath(l10n_path, base)
-            tgt_path = join(target, rel_path)
+            tgt_path = join_target(target, rel_path)
             makedirs(dirname(tgt_path), exist_ok=True)
             if source:
                 msg_delta, total_count, missing_ids = write_target_file(
@@ -142,7 +142,7 @@ def cli(
 
     if coverage:
         for locale, file_coverage in coverage_data.items():
-            coverage_path = join(target, locale, "coverage.json")
+            coverage_path = join_target(target, join(locale, "coverage.json"))
             makedirs(dirname(coverage_path), exist_ok=True)
             write_coverage(coverage_path, file_coverage)
 
@@ -155,6 +155,14 @@ def cli(
         log.info(f"  src_fallback {src_fallback:>6}")
 
 
+def join_target(target: str, rel_path: str) -> str:
+    """Raises an error if `rel_path` is not in the `target` directory."""
+    rel_path = normpath(rel_path)
+    if isabs(rel_path) or rel_path.split(sep)[0] == pardir:
+        raise ValueError(f"Path is outside the target directory: {rel_path}")
+    return join(target, rel_path)
+
+
 def file_exists(path: str) -> bool:
     """Unlike `os.path.exists()`, raises an error if `path` can't be accessed."""
     try:
-- 
2.43.0


From acef1532ccd9fe20ff3dcc4446d6cc8d1724ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 44/52] fix: do not serialize webext placeholders that are not
 declared

---
 python/moz/l10n/formats/webext/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 53fb6a0..4e17aff 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Iterator
 from json import dumps
-from re import sub
+from re import fullmatch, sub
 from typing import Any
 
 from ...model import (
@@ -150,6 +150,8 @@ def webext_serialize_message(
                 msgstr += source or f"${ph_name}$"
             else:
                 arg_name = source if isinstance(source, str) else ph_name
+                if fullmatch(r"\$[^$]+\$", arg_name):
+                    raise ValueError(f"Missing declaration for {ph_name}")
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
         else:
             raise ValueError(f"Unsupported message part: {part}")
-- 
2.43.0


From 062d69ec702407b9b3d4895b8326d368994a3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 45/52] fix: keep notes of Xcode stringsdict plurals

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 69266ad..e71a268 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -388,6 +388,7 @@ def parse_xliff_stringsdict(
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
             if plural.format_key.target is not None:
                 meta += attrib_as_metadata(plural.format_key.target, "format/target")
+            meta += stringsdict_notes(plural.format_key, "format")
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
@@ -407,6 +408,7 @@ def parse_xliff_stringsdict(
                 else:
                     meta += attrib_as_metadata(variant.target, f"{key}/target")
                     pattern_src = variant.target.text
+            meta += stringsdict_notes(variant, key)
             msg.variants[(CatchallKey("other") if key == "other" else key,)] = list(
                 parse_xcode_pattern(pattern_src)
             )
@@ -414,6 +416,12 @@ def parse_xliff_stringsdict(
     return entries
 
 
+def stringsdict_notes(unit_data: XcodeUnitData, base: str) -> Iterator[Metadata]:
+    for idx, note in enumerate(unit_data.notes, start=1):
+        name = f"{base}/note" if idx == 1 else f"{base}/note[{idx}]"
+        yield from element_as_metadata(note, name, True)
+
+
 def parse_xliff_stringsdict_unit(
     ns: str, plurals: dict[str, StringsdictPlural], unit: etree._Element
 ) -> None:
-- 
2.43.0


From cfc1699170a3844719ffec1acc771cbe19fe2d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 46/52] fix: keep several notes of an xcstrings unit apart

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index e71a268..c4bc226 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -312,8 +312,9 @@ def parse_xliff_xcstrings_unit(
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
     comments: list[str] = []
-    for note in unit_data.notes:
-        meta += element_as_metadata(note, "note", True)
+    for idx, note in enumerate(unit_data.notes, start=1):
+        name = "note" if idx == 1 else f"note[{idx}]"
+        meta += element_as_metadata(note, name, True)
         if note.text and not note.text.isspace():
             comments.append(note.text.strip())
     if from_source:
-- 
2.43.0


From 8ff926e98d2fb96a62c45c3127ad7efaeb92f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 47/52] fix: keep comments among the units of Xcode plurals
 files

---
 python/moz/l10n/formats/xliff/parse.py       | 7 +++++++
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index f00e886..e61d468 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -136,12 +136,19 @@ def xliff_parse(
 
             is_xcode = xcode_tool_id in meta
             if is_xcode:
+                body_comments = [
+                    Comment(comment_str(el.text))
+                    for el in body
+                    if isinstance(el, etree._Comment)
+                ]
                 if file_name.endswith(".stringsdict"):
                     plural_entries = parse_xliff_stringsdict(ns, body, source_entries)
                     if plural_entries:
+                        entries += body_comments
                         entries += plural_entries
                         continue
                 elif file_name.endswith(".xcstrings"):
+                    entries += body_comments
                     entries += parse_xliff_xcstrings(ns, body, source_entries)
                     continue
 
diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index c4bc226..3cee750 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -76,6 +76,8 @@ def parse_xliff_xcstrings(
 ) -> Iterator[Entry[Message]]:
     units: dict[str, XcstringsMsgData] = defaultdict(XcstringsMsgData)
     for unit in body:
+        if isinstance(unit, etree._Comment):
+            continue
         if unit.tag != f"{ns}trans-unit":
             raise ValueError(f"Unsupported <{unit.tag!s}> element in <body>")
         if "id" not in unit.attrib:
@@ -363,6 +365,8 @@ def parse_xliff_stringsdict(
 ) -> list[Entry[SelectMessage]] | None:
     plurals: dict[str, StringsdictPlural] = {}
     for unit in body:
+        if isinstance(unit, etree._Comment):
+            continue
         if unit.tag != f"{ns}trans-unit":
             return None
         if unit.text and not unit.text.isspace():
-- 
2.43.0


From df0e34d2544ed9267f5dd9e658290ecaf71812b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 48/52] fix: keep Android plurals that have unexpected text

---
 python/moz/l10n/formats/android/parse.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 73ee2cd..c2178fc 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -156,13 +156,12 @@ def android_parse(
             elif el.tag == "plurals":
                 if el.text and not el.text.isspace():
                     log.warning(f"Unexpected text in {name} plurals: {el.text}")
-                else:
-                    value = parse_plurals(
-                        name, el, ascii_spaces, literal_quotes, comment.extend
-                    )
-                    entries.append(
-                        Entry((name,), value, comment=comment_str(comment), meta=meta)
-                    )
+                value = parse_plurals(
+                    name, el, ascii_spaces, literal_quotes, comment.extend
+                )
+                entries.append(
+                    Entry((name,), value, comment=comment_str(comment), meta=meta)
+                )
 
             elif el.tag == "string-array":
                 if el.text and not el.text.isspace():
-- 
2.43.0


From 8633b37ce91f658a93e223a7c3171baa55dbd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 49/52] fix: do not ignore unexpected text in Xcode and file
 elements of XLIFF

---
 python/moz/l10n/formats/xliff/parse.py       | 2 ++
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index e61d468..d053758 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -107,6 +107,8 @@ def xliff_parse(
             meta = attrib_as_metadata(file, None, ("original",))
             entries: list[Entry[Message] | Comment] = []
             body = None
+            if file.text and not file.text.isspace():
+                raise ValueError(f"Unexpected text in <file>: {file.text}")
             for child in file:
                 if isinstance(child, etree._Comment):
                     entries.append(Comment(comment_str(child.text)))
diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 3cee750..ea9e6a7 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -76,6 +76,8 @@ def parse_xliff_xcstrings(
 ) -> Iterator[Entry[Message]]:
     units: dict[str, XcstringsMsgData] = defaultdict(XcstringsMsgData)
     for unit in body:
+        if unit.tail and not unit.tail.isspace():
+            raise ValueError(f"Unexpected text in <body>: {unit.tail}")
         if isinstance(unit, etree._Comment):
             continue
         if unit.tag != f"{ns}trans-unit":
@@ -365,6 +367,8 @@ def parse_xliff_stringsdict(
 ) -> list[Entry[SelectMessage]] | None:
     plurals: dict[str, StringsdictPlural] = {}
     for unit in body:
+        if unit.tail and not unit.tail.isspace():
+            raise ValueError(f"Unexpected text in <body>: {unit.tail}")
         if isinstance(unit, etree._Comment):
             continue
         if unit.tag != f"{ns}trans-unit":
-- 
2.43.0


From ffe1be17e5d5c13837693a16983a1c6fe369f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 50/52] fix: keep the translated format of an Xcode stringsdict
 plural

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index ea9e6a7..8c78b7f 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -397,6 +397,9 @@ def parse_xliff_stringsdict(
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
             if plural.format_key.target is not None:
                 meta += attrib_as_metadata(plural.format_key.target, "format/target")
+                format_target = plural.format_key.target.text
+                if format_target and format_target != plural.format_key.source.text:
+                    meta.append(Metadata("format/target", format_target))
             meta += stringsdict_notes(plural.format_key, "format")
         msg = SelectMessage(
             declarations={plural.var_name: selector},
-- 
2.43.0


From cd2fd6d65a39c797b3c630b7eaee94617b306870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 51/52] fix: use the default of get_pattern() also for a
 missing property

---
 python/moz/l10n/migrate/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 7b62b71..41e5343 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -133,6 +133,8 @@ def get_pattern(
         msg = entry.value
     elif property in entry.properties:
         msg = entry.properties[property]
+    elif default is not None:
+        return default
     else:
         raise StopIteration
 
-- 
2.43.0


From 83ca554f13ffe12fb5222cf08b4687b2600ef5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 52/52] fix: keep line separators other than newlines in Fluent
 messages as they are

---
 python/moz/l10n/formats/fluent/serialize.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9312a18..96d7969 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -415,7 +415,10 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
 
 
-not_text = compile(r"[{}]+|\n *[*.[]")
+# FluentSerializer would add indent after the line separators other than \n
+not_text = compile(
+    r"[{}]+|\n *[*.[]|(?:[\v\f\x1c-\x1e\x85\u2028\u2029]|\r(?!\n))+"
+)
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -425,11 +428,11 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     idx = 0
     for m in not_text.finditer(source):
         start = m.start()
-        esc = m[0].lstrip()
+        esc = m[0].lstrip("\n ")
         start += len(m[0]) - len(esc)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-        elements.append(ftl.Placeable(ftl.StringLiteral(esc)))
+        elements.append(ftl.Placeable(ftl.StringLiteral(esc.translate(esc_cc))))
         idx = m.end()
     if idx < len(source):
         elements.append(ftl.TextElement(source[idx:]))
@@ -510,8 +513,12 @@ def function_ref(
     return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
 
 
-# Non-printable ASCII C0 & C1 / Unicode Cc characters
-esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
+# Non-printable ASCII C0 & C1 / Unicode Cc characters, and line separators
+esc_cc = {
+    n: f"\\u{n:04X}"
+    for r in (range(0, 32), range(127, 160), range(0x2028, 0x202A))
+    for n in r
+}
 esc_bs = compile(r'([\\"])')
 
 
-- 
2.43.0

