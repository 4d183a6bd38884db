From 0bfc3b30285b156266be6831526fae0d86178843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 1/9] fix: write Guid arrays, which the reader already accepts

---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0a5dc3b..a0590ee 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -961,6 +961,8 @@ class FArchiveWriter:
                 self.fstring(values[i])
             elif array_type == "EnumProperty":
                 self.fstring(values[i])
+            elif array_type == "Guid":
+                self.guid(values[i])
             elif array_type == "BoolProperty":
                 self.bool(values[i])
             elif array_type == "ByteProperty":
-- 
2.43.0


From 9ed585db2590702e43f509dee6b49e8ede10bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 2/9] fix: convert NaN floats to null when NaN is not allowed
 (NaN never equals itself)

---
 palworld_save_tools/archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index a0590ee..c4b0667 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -333,7 +333,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_float(self.data.read(4))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
@@ -343,7 +343,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_double(self.data.read(8))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
-- 
2.43.0


From e92ab34538fd2f1a5ca2fedf8690570c5a97f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 3/9] fix: keep the raw bytes of a base camp module that has
 undecoded trailing data

---
 palworld_save_tools/rawdata/base_camp_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 023ca4f..ba983c5 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -89,7 +89,8 @@ def decode_bytes(
         return {"values": b_bytes}
 
     if not reader.eof():
-        print(f"Warning: EOF not reached for {module_type}")
+        print(f"Warning: EOF not reached for {module_type}, falling back to raw bytes")
+        return {"values": b_bytes}
 
     return data
 
-- 
2.43.0


From 09af314c5887ae34c0011363a9cd299e4c6adcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 4/9] fix: write back work entries that were kept as raw bytes

---
 palworld_save_tools/rawdata/work.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 5915f05..d3ae7c8 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -159,11 +159,13 @@ def encode(
     del properties["custom_type"]
     for work_element in properties["value"]["values"]:
         work_type = work_element["WorkableType"]["value"]["value"]
-        work_element["RawData"]["value"] = {
-            "values": [
-                b for b in encode_bytes(work_element["RawData"]["value"], work_type)
-            ]
-        }
+        # undecoded work is kept as raw bytes
+        if "values" not in work_element["RawData"]["value"]:
+            work_element["RawData"]["value"] = {
+                "values": [
+                    b for b in encode_bytes(work_element["RawData"]["value"], work_type)
+                ]
+            }
         for work_assign in work_element["WorkAssignMap"]["value"]:
             work_assign["value"]["RawData"]["value"] = {
                 "values": [
-- 
2.43.0


From 9266c1d43bddd6d80544aa99f94ee813e4a19f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 5/9] fix: write back work entries with an unknown transform
 type

---
 palworld_save_tools/rawdata/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index d3ae7c8..8f91462 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -250,7 +250,7 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(p["transform"]["raw_data"])
+        writer.write(bytes(p["transform"]["raw_data"]))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From fbfb3727551e1bc2257c2e1b1ba43590fc43c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 6/9] fix: --to-json/--from-json override the direction guessed
 from the extension

---
 palworld_save_tools/commands/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 772ef9d..2ab7f0f 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,7 +63,7 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    if args.to_json or args.filename.endswith(".sav"):
+    if args.to_json or (not args.from_json and args.filename.endswith(".sav")):
         if not args.output:
             output_path = args.filename + ".json"
         else:
@@ -77,7 +77,7 @@ def main():
             custom_properties_keys=args.custom_properties,
         )
 
-    if args.from_json or args.filename.endswith(".json"):
+    if args.from_json or (not args.to_json and args.filename.endswith(".json")):
         if not args.output:
             output_path = args.filename.replace(".json", "")
         else:
-- 
2.43.0


From 85fa298c6241cc48c034b03342cf3d98c342a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 7/9] fix: default SAV output path only drops the .json suffix
 and is never the input file

---
 palworld_save_tools/commands/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 2ab7f0f..83caa1d 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -79,7 +79,10 @@ def main():
 
     if args.from_json or (not args.to_json and args.filename.endswith(".json")):
         if not args.output:
-            output_path = args.filename.replace(".json", "")
+            if args.filename.endswith(".json"):
+                output_path = args.filename[: -len(".json")]
+            else:
+                output_path = args.filename + ".sav"
         else:
             output_path = args.output
         convert_json_to_sav(args.filename, output_path, force=args.force)
-- 
2.43.0


From 4bcd063fbdd303810001252e84f4725229e42ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:40 +0000
Subject: [PATCH 8/9] fix: fail instead of silently doing nothing when the
 direction cannot be guessed

---
 palworld_save_tools/commands/convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 83caa1d..d8fe2ca 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -87,6 +87,12 @@ def main():
             output_path = args.output
         convert_json_to_sav(args.filename, output_path, force=args.force)
 
+    if not (
+        args.to_json or args.from_json or args.filename.endswith((".sav", ".json"))
+    ):
+        print(f"{args.filename} is neither a .sav nor a .json file")
+        exit(1)
+
 
 def convert_sav_to_json(
     filename,
-- 
2.43.0


From 7e3cb9a94066f257dc39c6489d167d98ca168e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:40 +0000
Subject: [PATCH 9/9] fix: reject strings that run past the end of the data
 instead of shortening them

---
 palworld_save_tools/archive.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index c4b0667..2b022a2 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -277,10 +277,16 @@ class FArchiveReader:
         encoding: str
         if size < 0:
             size = -size
-            data = reader.read(size * 2)[:-2]
+            raw = reader.read(size * 2)
+            if len(raw) != size * 2:
+                raise Exception("string runs past the end of the data")
+            data = raw[:-2]
             encoding = "utf-16-le"
         else:
-            data = reader.read(size)[:-1]
+            raw = reader.read(size)
+            if len(raw) != size:
+                raise Exception("string runs past the end of the data")
+            data = raw[:-1]
             encoding = "ascii"
 
         try:
-- 
2.43.0

