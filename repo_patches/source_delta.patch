From 4d0728309aca157fa96915213711ef1e25c03531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 01/33] fix: detect path conflicts with any parent directory
 (E095b, E101b)

Only the immediate parent directory of each path was recorded, so a state with
both 'a' and 'a/b/c' was accepted.
---
 ocfl/inventory_validator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 08b3af5..8ea1657 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -51,6 +51,16 @@ def _get_logical_path_map(inventory, version):
     return file_map
 
 
+def _with_parent_directories(directories):
+    """Set of the given directory paths plus all of their parent directories."""
+    all_directories = set()
+    for directory in directories:
+        elements = directory.split("/")
+        for n in range(1, len(elements) + 1):
+            all_directories.add("/".join(elements[:n]))
+    return all_directories
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -294,7 +304,7 @@ class InventoryValidator():
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
             # Check for conflicting content paths
-            for path in content_directories:
+            for path in _with_parent_directories(content_directories):
                 if path in content_paths:
                     self._error("E101b", path=path)
         return manifest_files, manifest_files_correct_format, unnormalized_digests
@@ -487,7 +497,7 @@ class InventoryValidator():
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     digests.append(norm_digest)
             # Check for conflicting logical paths
-            for path in logical_directories:
+            for path in _with_parent_directories(logical_directories):
                 if path in logical_paths:
                     self._error("E095b", version=version, path=path)
         return digests
-- 
2.43.0


From d3273d1b06a5380e47d3c46a89b9d0f3ae1bfa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 02/33] fix: report ill-typed inventory JSON as errors instead
 of crashing

Inventories that are not objects, have version blocks that are not objects,
paths that are not strings, or state or fixity without a manifest made the
inventory validator raise TypeError, KeyError or AttributeError.
---
 ocfl/inventory_validator.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 8ea1657..25b6bb1 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -124,6 +124,9 @@ class InventoryValidator():
         self.inventory = inventory
         self.spec_version = self.default_spec_version if force_spec_version is None else force_spec_version
         self.log.spec_version = self.spec_version
+        if not isinstance(inventory, dict):
+            self._error("E033", explanation="inventory is not a JSON object")
+            return False
         if "id" in inventory:
             iid = inventory["id"]
             if not isinstance(iid, str) or iid == "":
@@ -157,7 +160,7 @@ class InventoryValidator():
             self._error("E036c")
         elif inventory["digestAlgorithm"] == "sha512":
             pass
-        elif self.lax_digests:
+        elif self.lax_digests and isinstance(inventory["digestAlgorithm"], str):
             self.digest_algorithm = inventory["digestAlgorithm"]
         elif inventory["digestAlgorithm"] == "sha256":
             self._warning("W004")
@@ -300,6 +303,9 @@ class InventoryValidator():
                     else:
                         manifest_digests.add(norm_digest)
                     for file in manifest[digest]:
+                        if not isinstance(file, str):
+                            self._error("E092", digest=digest)  # paths must be strings
+                            continue
                         manifest_files[file] = norm_digest
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
@@ -354,7 +360,7 @@ class InventoryValidator():
                             else:
                                 digests_seen.add(norm_digest)
                             for file in fixity_algoritm_block[digest]:
-                                if file not in manifest_files:
+                                if manifest_files is not None and (not isinstance(file, str) or file not in manifest_files):
                                     self._error("E057d", digest=norm_digest, algorithm=digest_algorithm, path=file)
 
     def _validate_version_sequence(self, versions):
@@ -427,6 +433,9 @@ class InventoryValidator():
         digests_used = []
         for v in all_versions:
             version = versions[v]
+            if not isinstance(version, dict):
+                self._error("E048", version=v)  # version block must be a JSON object
+                continue
             if "created" not in version:
                 self._error("E048", version=v)  # No created
             elif not isinstance(versions[v]["created"], str):
@@ -487,11 +496,13 @@ class InventoryValidator():
                     self._error("E050e", version=version, digest=digest)
                 else:
                     for path in state[digest]:
-                        if path in logical_paths:
+                        if not isinstance(path, str):
+                            self._error("E050e", version=version, digest=digest)  # paths must be strings
+                        elif path in logical_paths:
                             self._error("E095a", version=version, path=path)
                         else:
                             self._check_logical_path(path, version, logical_paths, logical_directories)
-                    if digest not in unnormalized_digests:
+                    if unnormalized_digests is not None and digest not in unnormalized_digests:
                         # Exact string value must match, not just normalized
                         self._error("E050f", version=version, digest=digest)
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
-- 
2.43.0


From f32923ae16d55629204206877ab69e4974052f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 03/33] fix: match inventory type and digests against the whole
 value

Type values with anything after #inventory, or with other characters in place
of the dots, and digests followed by a newline were accepted.
---
 ocfl/inventory_validator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 25b6bb1..6bf4567 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -148,7 +148,7 @@ class InventoryValidator():
             self._error("E038a", expected="https://ocfl.io/" + force_spec_version + "/spec/#inventory", got=inventory["type"])
         else:
             # Extract specification version
-            m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", inventory["type"])
+            m = re.match(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory\Z""", inventory["type"])
             if not m:
                 self._error("E038b", got=inventory["type"], assumed_spec_version=self.spec_version)
             elif m.group(1) in SPEC_VERSIONS_SUPPORTED:
@@ -289,7 +289,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.match(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -344,7 +344,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.match(regex, digest)
+                        m = re.fullmatch(regex, digest)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -490,7 +490,7 @@ class InventoryValidator():
         else:
             digest_re = re.compile(self._digest_regex())
             for digest in state:
-                if not digest_re.match(digest):
+                if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
                 elif not isinstance(state[digest], list):
                     self._error("E050e", version=version, digest=digest)
-- 
2.43.0


From a1b09426989049a88a060298eb1abdf46c972974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 04/33] fix: check all segments of content paths that include a
 newline

The part of a content path after a newline was not examined so it could
include '..' segments.
---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 6bf4567..64cfc1e 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -575,7 +575,7 @@ class InventoryValidator():
         if path.startswith("/") or path.endswith("/"):
             self._error("E100", path=path)
             return False
-        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path)
+        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path, re.DOTALL)
         if not m:
             self._error("E042a", path=path)
             return False
-- 
2.43.0


From 5eb327028bce5732c9f425c531013edb755e4e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 05/33] fix: do not accept datetimes with trailing newline or
 non-ASCII digits

---
 ocfl/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 9cd7e9e..d279c7a 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context="datetime"):
     if s == "":
         raise ValueError("Attempt to set empty %s" % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?\Z", s, re.ASCII)
     if m is not None:
         if m.group(1) is None:
             s += "-01-01"
@@ -86,7 +86,7 @@ def str_to_datetime(s, context="datetime"):
             s += "-01"
         s += "T00:00:00Z"
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?\Z", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if m is not None:
@@ -102,7 +102,7 @@ def str_to_datetime(s, context="datetime"):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))?$", s)
+                 r"(\d\d):(\d\d))?\Z", s, re.ASCII)
     if m is None:
         raise ValueError("Bad datetime format (%s)" % s)
     dt = dateutil_parser.parse(m.group(1) + "Z")
-- 
2.43.0


From 57e995dfcdb4a350f28a614382daf7d074ec3c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 06/33] fix: report unusable inventories in objects instead of
 crashing

Inventories that are not UTF-8, are too deeply nested, or are not files, and
invalid root or version inventories used in comparisons between versions,
made object validation raise an exception.
---
 ocfl/validator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a70b58..b68f329 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -163,7 +163,8 @@ class Validator():
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
             inventory_is_valid = self.log.num_errors == 0
-            self.root_inv_validator = inv_validator
+            # Prior inventories can be compared only with a valid root inventory
+            self.root_inv_validator = inv_validator if inventory_is_valid else None
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
@@ -205,7 +206,7 @@ class Validator():
         except FileNotFoundError:
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
-        except json.decoder.JSONDecodeError as e:
+        except (ValueError, RecursionError, OSError) as e:  # bad JSON, bad encoding, or unreadable
             self.log.error("E033", where=where, explanation=str(e))
             raise ValidatorAbortException
         inv_validator = InventoryValidator(log=self.log, where=where,
@@ -333,11 +334,16 @@ class Validator():
                 # Note that inventories in prior versions may use different digest
                 # algorithms from the current invenotory. Also, they may accord
                 # with the same or earlier versions of the specification
+                start_errors = self.log.num_errors
                 version_inventory, inv_validator = self.validate_inventory(inv_file, where=version_dir)
+                version_inventory_is_valid = self.log.num_errors == start_errors
                 this_spec_version = inv_validator.spec_version
                 digest_algorithm = inv_validator.digest_algorithm
                 self.validate_inventory_digest(inv_file, digest_algorithm, where=version_dir)
                 self.inventory_digest_files[version_dir] = "inventory.json." + digest_algorithm
+                if not version_inventory_is_valid:
+                    # Errors have been reported, not safe to use data in this inventory
+                    continue
                 if self.id and "id" in version_inventory:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
-- 
2.43.0


From be08c5ee183e019ef1e5645c0d7c8b52c3405b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 07/33] fix: extract digest algorithms with hyphen from sidecar
 file name

The sidecar of an object using blake2b-512 etc. (lax digests) was never
recognized.
---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index b68f329..cfb1304 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -231,7 +231,7 @@ class Validator():
         """
         if not self.check_digests:
             return
-        m = re.match(r""".*\.(\w+)$""", inv_digest_file)
+        m = re.match(r""".*\.([\w\-]+)$""", inv_digest_file)
         if m:
             digest_algorithm = m.group(1)
             try:
-- 
2.43.0


From 2c7a4dbd6ca7263ae54a6deea936dbee57a4826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 08/33] fix: storage root with invalid objects is not valid

StorageRoot.validate() returned True when objects in the root were found to
be invalid.
---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1981318..effbd18 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -453,7 +453,7 @@ class StorageRoot():
             return False
         self.log.spec_version = self.spec_version
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
-        if self.num_traversal_errors > 0:
+        if self.num_traversal_errors > 0 or self.good_objects != self.num_objects:
             valid = False
         return valid
 
-- 
2.43.0


From 28f4d775e3d8d50e0966a005f2ac75263a75dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 09/33] fix: list storage roots with unregistered extensions,
 reset error count

Listing objects crashed because there is no validation log, and repeated use
of validate() carried errors over from earlier calls.
---
 ocfl/storage_root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index effbd18..5183605 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -351,7 +351,10 @@ class StorageRoot():
             name = entry["name"]
             if entry["type"] == "directory":
                 if os.path.relpath(name, "extensions") not in self.registered_extensions:
-                    self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
+                    if self.log is None:
+                        logging.warning("Storage root extension %s is not registered", name)
+                    else:
+                        self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
             else:
                 self.traversal_error("E086", entry=name)
 
@@ -444,6 +447,7 @@ class StorageRoot():
         """
         valid = True
         self.log = ValidationLogger(log_warnings=log_warnings, log_errors=log_errors, lang=lang)
+        self.num_traversal_errors = 0
         self.open_root_fs()
         try:
             self.check_root_structure()
-- 
2.43.0


From 42a0722b5782caead9e1236446f3b91e25b03ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 10/33] fix: register tuple tree layout under its own name

Storage roots created with this layout declare nnnn-tuple-tree-layout and
could not be opened again.
---
 ocfl/layout_registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/layout_registry.py b/ocfl/layout_registry.py
index 52b7ee6..ac75399 100644
--- a/ocfl/layout_registry.py
+++ b/ocfl/layout_registry.py
@@ -65,5 +65,6 @@ add_layout("0003-hash-and-id-n-tuple-storage-layout", Layout_0003_Hash_And_Id_N_
 add_layout("0003", Layout_0003_Hash_And_Id_N_Tuple)
 add_layout("nnnn-flat-quoted-storage-layout", Layout_NNNN_Flat_Quoted)
 add_layout("flat-quoted", Layout_NNNN_Flat_Quoted)
+add_layout("nnnn-tuple-tree-layout", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-tuple-tree", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-uuid-quadtree", Layout_NNNN_UUID_Quadtree)
-- 
2.43.0


From c135af0872951c3b626df1dd9c974f42c5552b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 11/33] fix: flat quoted layout must not map identifiers to '.'
 or '..'

---
 ocfl/layout_nnnn_flat_quoted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_nnnn_flat_quoted.py b/ocfl/layout_nnnn_flat_quoted.py
index 3b1c92a..bbda75f 100644
--- a/ocfl/layout_nnnn_flat_quoted.py
+++ b/ocfl/layout_nnnn_flat_quoted.py
@@ -23,12 +23,12 @@ class Layout_NNNN_Flat_Quoted(Layout):
 
         Raises:
             LayoutException: if the identifier cannot be converted to a valid
-            object path. Currently just a check for blank
+            object path. Currently just checks for blank, "." and ".."
 
         Uses Layout.encode() to generate a safe directory name from any
         identifier. Length is not checked but could cause operating system
         errors.
         """
-        if identifier == "":
+        if identifier in ("", ".", ".."):
             raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return self.encode(identifier)
-- 
2.43.0


From c4f010d223a8c6a350bd0531b0f56989d916fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 12/33] fix: allow config.json for layouts that have no
 parameters

---
 ocfl/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 28d5ab4..42956cd 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -203,7 +203,7 @@ class Layout:
         elif config.get("extensionName") != self.NAME:
             raise LayoutException("Storage root extension config extensionName is %s, expected %s" % (config.get("extensionName"), self.NAME))
         # Read and check the parameters (ignore any extra params)
-        for key, method in self.PARAMS.items():
+        for key, method in (self.PARAMS or {}).items():
             method(config.get(key))
         # Finally, check full config
         self.check_full_config()
-- 
2.43.0


From 9bcef378ccd752e0faee6cbdd026098f61caf5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 13/33] fix: uuid layout must refuse bad identifiers with
 LayoutException

Also do not accept a trailing newline or non-ASCII digits.
---
 ocfl/layout_nnnn_uuid_quadtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 7139738..45885ed 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -83,9 +83,9 @@ class Layout_NNNN_UUID_Quadtree(Layout):
         if identifier.startswith(self.prefix):
             identifier = identifier[len(self.prefix):]
         else:
-            raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})$""", identifier)
+            raise LayoutException("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
+        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})\Z""", identifier, re.ASCII)
         if not match:
-            raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
+            raise LayoutException("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
                             match.group(5), match.group(6), match.group(7), match.group(8))
-- 
2.43.0


From 68d8484d3f94a5e1edeb804cea40ae74b6406017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 14/33] fix: layout 0003 must refuse blank identifiers and
 boolean parameters

A blank identifier was mapped to the directory of the tuples, or the root.
---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 8fdbd78..cd478a6 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -110,7 +110,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("tupleSize parameter must be aninteger between 0 and 32 inclusive")
         self.tuple_size = value
 
@@ -134,7 +134,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("numberOfTuples parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("numberOfTuples parameter must be aninteger between 0 and 32 inclusive")
         self.number_of_tuples = value
 
@@ -183,7 +183,12 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
             then it is tuncated at 100 characters and then "-" and the digest
             appended (so it would be 165 chars with sha256).
         6. The encapsulation directory name is joined to the end of the path.
+
+        Raises:
+            LayoutException: if the identifier is blank
         """
+        if identifier == "":
+            raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return _id_to_path(identifier=identifier,
                            digest_algorithm=self.digest_algorithm,
                            tuple_size=self.tuple_size,
-- 
2.43.0


From a234f23f15af31ae8b765d2e5a9a36de7de702a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 15/33] fix: do not add an object inside another object

The tuple tree layout maps for example 'ab' to ab/ab and 'abab' to ab/ab/abab.
---
 ocfl/storage_root.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 5183605..64f7b4a 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -483,6 +483,11 @@ class StorageRoot():
         path = self.object_path(identifier)
         if self.root_fs.exists(path):
             raise StorageRootException("Add object failed because destination path %s already exists" % (path))
+        parent = os.path.dirname(path)
+        while parent != "":
+            if self.root_fs.isdir(parent) and len(find_namastes(0, dir=parent, fsw=self.root_fs)) > 0:
+                raise StorageRootException("Add object failed because destination path %s is inside object at %s" % (path, parent))
+            parent = os.path.dirname(parent)
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
         try:
             # Recusive copy of object to path in self.root_fs
-- 
2.43.0


From 92089f3305237ebd913e85d6811f393e0cacb395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 16/33] fix: remove manifest entry when its last content path
 is deleted

Also match the whole of the type value when getting the spec version.
---
 ocfl/inventory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index c1cea26..ef69703 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -140,7 +140,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
     def spec_version(self):
         """Get specification version from the conformance declaration."""
         decl = self.data.get("type", "")
-        m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", decl)
+        m = re.match(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory\Z""", decl)
         if m:
             return m.group(1)
         return None
@@ -792,7 +792,10 @@ class Version():
                         for cpath in self.inv.manifest[digest]:
                             if not cpath.startswith(self.vdir + "/"):
                                 cpaths.append(cpath)
-                        self.inv.manifest[digest] = cpaths
+                        if len(cpaths) > 0:
+                            self.inv.manifest[digest] = cpaths
+                        else:
+                            del self.inv.manifest[digest]
                     # FIXME - Also adjust fixity!
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
-- 
2.43.0


From 57a7e5f486561d8f717be9f13022c87fce62c1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 17/33] fix: keep files to copy in step with manifest in new
 versions

Adding the same source file twice without dedupe lost a copy, deleting a
file added in the same version still copied it, renaming such a file lost its
content, and content paths with '..' segments or outside of the version were
accepted.
---
 ocfl/new_version.py | 25 ++++++++++++++++---------
 ocfl/object.py      |  6 +++---
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 926fbff..1ada354 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -45,7 +45,7 @@ class NewVersion():
         self.dedupe = None
         # Additional state needed for final commit
         self.old_digest_algorithm = None
-        self.files_to_copy = {}  # dict: src_path -> content_path
+        self.files_to_copy = {}  # dict: content_path -> src_path
         self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
@@ -315,6 +315,9 @@ class NewVersion():
         elif content_path in inventory.content_paths:
             raise NewVersionException("Bad content path %s, already exists!"
                                       % (content_path))
+        if not content_path.startswith(prefix) or any(e in ("", ".", "..") for e in content_path.split("/")):
+            raise NewVersionException("Bad content path %s, not within the content directory of the new version"
+                                      % (content_path))
         logging.debug("add(%s %s %s)", src_path, content_path, logical_path)
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
@@ -342,7 +345,7 @@ class NewVersion():
                 or (not in_current_version and not self.forward_delta)
                 or (in_current_version and not self.dedupe)):
             # Yes, we copy this file in...
-            self.files_to_copy[src_path] = content_path
+            self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
 
     def delete(self, logical_path):
@@ -362,6 +365,11 @@ class NewVersion():
         inventory = self.inventory
         try:
             inventory.current_version.delete_logical_path(logical_path)
+            # Do not copy files that have been removed from the manifest again
+            content_paths = set(inventory.content_paths)
+            for content_path in list(self.files_to_copy):
+                if content_path not in content_paths:
+                    del self.files_to_copy[content_path]
         except InventoryException:
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
 
@@ -379,14 +387,13 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
-        try:
-            digest = inventory.current_version.delete_logical_path(old_logical_path)
-            if digest in inventory.current_version.state:
-                inventory.current_version.state[digest].append(new_logical_path)
-            else:
-                inventory.current_version.state[digest] = [new_logical_path]
-        except InventoryException:
+        digest = inventory.current_version.digest_for_logical_path(old_logical_path)
+        if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        # The content is not changed so there is no change to the manifest
+        logical_paths = inventory.current_version.state[digest]
+        logical_paths.remove(old_logical_path)
+        logical_paths.append(new_logical_path)
 
     def add_from_srcdir(self):
         """Add all content from srcdir."""
diff --git a/ocfl/object.py b/ocfl/object.py
index e22a93b..f0862a0 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -317,7 +317,7 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
-                for (srcpath, objpath) in nv.files_to_copy.items():
+                for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         # Finally populate the object root
         if objdir is not None:
@@ -367,7 +367,7 @@ class Object():  # pylint: disable=too-many-public-methods
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
         # Write version files
-        for (srcpath, objpath) in nv.files_to_copy.items():
+        for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
@@ -531,7 +531,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-        for (srcpath, objpath) in new_version.files_to_copy.items():
+        for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
-- 
2.43.0


From 6db1566af391a26b7b213807391b5a813a9ec016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 18/33] fix: write inventory sidecar with the digest algorithm
 of the inventory

---
 ocfl/object.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index f0862a0..060ef7b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -250,8 +250,11 @@ class Object():  # pylint: disable=too-many-public-methods
         if inventory is not None:
             with self.obj_fs.open(invfile, "w") as fh:
                 inventory.write_json(fh)
-        digest = file_digest(invfile, self.digest_algorithm, fs=self.obj_fs)
-        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + self.digest_algorithm)
+        digest_algorithm = self.digest_algorithm
+        if inventory is not None and inventory.digest_algorithm is not None:
+            digest_algorithm = inventory.digest_algorithm
+        digest = file_digest(invfile, digest_algorithm, fs=self.obj_fs)
+        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + digest_algorithm)
         with self.obj_fs.open(sidecar, "w") as fh:
             fh.write(digest + " " + INVENTORY_FILENAME + "\n")
         return sidecar
-- 
2.43.0


From fb956786fe8656050f44572a9e316c9ac3a017a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 19/33] fix: keep specification version of object when adding
 versions

Later versions of 1.0 objects were always written with 1.1 inventories while
the object declaration was for 1.0. Also building from source directories with
zero-padded version names failed.
---
 ocfl/object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 060ef7b..f245f79 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -295,7 +295,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = None
         # Create each version of the object
         for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
-            if vdir == "v1":
+            if inventory is None:
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
@@ -308,6 +308,7 @@ class Object():  # pylint: disable=too-many-public-methods
             else:
                 nv = NewVersion.next_version(inventory=inventory,
                                              srcdir=os.path.join(srcdir, vdir),
+                                             spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
                                              forward_delta=self.forward_delta,
@@ -318,7 +319,7 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
-                self.write_inventory_and_sidecar(inventory, vdir)
+                self.write_inventory_and_sidecar(inventory, inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
@@ -509,6 +510,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
                                        srcdir=srcdir,
+                                       spec_version=inventory.spec_version,
                                        metadata=metadata,
                                        content_path_normalization=self.content_path_normalization,
                                        forward_delta=self.forward_delta,
-- 
2.43.0


From 294f1210e8de760f8acdb338f272e1339584dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 20/33] fix: support update of open object and update without
 content change

start_new_version() with objdir None, and add_version_with_content() with
srcdir None, failed although documented.
---
 ocfl/object.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index f245f79..612d81c 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -398,11 +398,11 @@ class Object():  # pylint: disable=too-many-public-methods
         between versions.
         """
         nv = self.start_new_version(objdir=objdir,
-                                    srcdir=srcdir,
+                                    srcdir="" if srcdir is None else srcdir,
                                     digest_algorithm=self.digest_algorithm,
                                     fixity=self.fixity,
                                     metadata=metadata,
-                                    carry_content_forward=False)
+                                    carry_content_forward=(srcdir is None))
         # Add files if srcdir is set
         if srcdir is not None:
             nv.add_from_srcdir()
@@ -445,9 +445,10 @@ class Object():  # pylint: disable=too-many-public-methods
             finally be added with write_new_version()
         """
         # Check the current object
-        self.open_obj_fs(objdir)
+        if objdir is not None:
+            self.open_obj_fs(objdir)
         validator = Validator(check_digests=False, lax_digests=self.lax_digests)
-        if not validator.validate_object(objdir):
+        if not validator.validate_object(self.obj_fs):
             raise ObjectException("Object at '%s' is not valid, aborting" % objdir)
         inventory = self.parse_inventory()
         # Object is valid, have inventory
@@ -497,7 +498,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     d = file_digest(file, digest_algorithm, fs=self.obj_fs)
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
-                                              files[0], file, digest_algorithm, digest, d)
+                                              (files[0], file, digest_algorithm, digest, d))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From cd77190f679b97684e3f01f5a070843b244ae75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 21/33] fix: extract_file must not overwrite an existing file

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 612d81c..a797647 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -772,6 +772,8 @@ class Object():  # pylint: disable=too-many-public-methods
             raise ObjectException("Destination parent directory does not exist or could not be opened (%s)" % (e))
         # Now extract...
         basename = os.path.basename(logical_path)
+        if dst_fs.exists(basename):
+            raise ObjectException("Target file %s already exists in %s, aborting!" % (basename, dstdir))
         manifest = inv.manifest
         state = inv.version(version).state
         # Extract the specified file
-- 
2.43.0


From c979e9a14ad3a8a1d529d032d7da78670841eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 22/33] fix: compare sidecar digest ignoring case

As for the digests in inventories.
---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index cfb1304..84d1ed6 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -237,7 +237,7 @@ class Validator():
             try:
                 digest_recorded = self.read_inventory_digest(inv_digest_file)
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
-                if digest_actual != digest_recorded:
+                if digest_actual != normalized_digest(digest_recorded, digest_algorithm):
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
             except ValueError as e:  # pylint: disable=broad-except
                 self.log.error("E061", description=str(e))
-- 
2.43.0


From 518e04376770c62027d703cb8a96f54dabc61d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 23/33] fix: refuse version directory names with newline,
 non-ASCII digits or zero

---
 ocfl/object_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index dfc98ed..b5c71e5 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -51,8 +51,8 @@ def next_version_directory(vdir):
     Raises an ObjectExtension if the format of version cannot be understood
     or if there is overflow of a zero-padded form.
     """
-    m = re.match(r"""v((\d)\d*)$""", vdir)
-    if not m:
+    m = re.match(r"""v((\d)\d*)\Z""", vdir, re.ASCII)
+    if not m or int(m.group(1)) == 0:
         raise ObjectException("Bad version directory '%s'" % vdir)
     next_n = int(m.group(1)) + 1
     if m.group(2) == "0":
@@ -164,7 +164,7 @@ def parse_version_directory(dirname):
 
     Returns the integer version number from this version directory name.
     """
-    m = re.match(r"""v(\d{1,5})$""", dirname)
+    m = re.match(r"""v(\d{1,5})\Z""", dirname, re.ASCII)
     if not m:
         raise ObjectException("Bad version directory name: %s" % (dirname))
     v = int(m.group(1))
-- 
2.43.0


From 1dc3f011f92742e2baa8eb7beb83575a47ba5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 24/33] fix: compare digests of prior version states ignoring
 case

---
 ocfl/inventory_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 64cfc1e..939873a 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -610,8 +610,10 @@ class InventoryValidator():
         here provide more detailed diagnostics in the case that the digest
         algorithm is the same across versions being compared.
         """
-        self_state = self.inventory["versions"][version]["state"]
-        prior_state = prior.inventory["versions"][version]["state"]
+        self_state = {normalized_digest(digest, self.digest_algorithm): files
+                      for digest, files in self.inventory["versions"][version]["state"].items()}
+        prior_state = {normalized_digest(digest, prior.digest_algorithm): files
+                       for digest, files in prior.inventory["versions"][version]["state"].items()}
         for digest in set(self_state.keys()).union(prior_state.keys()):
             if digest not in prior_state:
                 self._error("E066d", version=version, prior_head=prior.head,
-- 
2.43.0


From 35dd4ca78b00619a9c071087cef01cec2dece7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:12 +0000
Subject: [PATCH 25/33] fix: set creation time of new versions when no metadata
 is given

create() and write_new_version() without metadata wrote objects whose version
block has no created time and that are therefore invalid.
---
 ocfl/object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index a797647..feb64ba 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -22,6 +22,7 @@ from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs,
 from .namaste import Namaste
 from .validator import Validator, ValidatorAbortException
 from .version_metadata import VersionMetadata
+from .w3c_datetime import datetime_to_str
 
 
 class Object():  # pylint: disable=too-many-public-methods
@@ -358,6 +359,8 @@ class Object():  # pylint: disable=too-many-public-methods
                                       fixity=self.fixity,
                                       dedupe=self.dedupe,
                                       content_path_normalization=self.content_path_normalization)
+        if nv.created is None:
+            nv.created = datetime_to_str()
         # Add content, everything in srcdir
         nv.add_from_srcdir()
         inventory = nv.inventory
@@ -530,6 +533,8 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
+        if new_version.created is None:
+            new_version.created = datetime_to_str()
         # Delete old root inventory sidecar if we changed digest algorithm
         if (new_version.old_digest_algorithm is not None
                 and inventory.digest_algorithm != new_version.old_digest_algorithm):
-- 
2.43.0


From 40d17a9dde5f96b6f2f1003063e19e726dbc2d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 26/33] fix: write a state block in first versions without
 files

---
 ocfl/new_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 1ada354..8c136e8 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -140,7 +140,7 @@ class NewVersion():
             for fixity_type in fixity:
                 inventory.add_fixity_type(fixity_type)
         #
-        inventory.add_version(metadata=metadata)  # also sets head "v1"
+        inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
         if digest_algorithm is None:
             digest_algorithm = DEFAULT_DIGEST_ALGORITHM
         inventory.digest_algorithm = digest_algorithm
-- 
2.43.0


From acdcb1bead41942cecc2b2f3d831ab8f1d5b3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 27/33] fix: open and create directories named with a trailing
 slash

---
 ocfl/fsw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 672f6ba..8b1b2b7 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -147,7 +147,7 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
     if create:
         # Split path into the head that we open, and the tail that we
         # create
-        (path, create_dir) = os.path.split(path)
+        (path, create_dir) = os.path.split(path.rstrip("/"))
 
     if method == "file":
         # We just have a local file path, assume this is not URI escaped
-- 
2.43.0


From 74aefcf466bcaa2bb5a5b7e652ec2ddf5bbc15c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 28/33] fix: list objects whose inventory cannot be read or
 parsed

---
 ocfl/object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index feb64ba..1d2db59 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -14,7 +14,7 @@ import logging
 
 from .constants import INVENTORY_FILENAME, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest
-from .inventory import Inventory
+from .inventory import Inventory, InventoryException
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
@@ -832,5 +832,6 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             inventory = self.parse_inventory()
             return inventory.id
-        except ObjectException:
+        except (ObjectException, InventoryException, OSError, ValueError, RecursionError):
+            # Inventory is not valid, or else cannot be read or parsed
             return failure_value
-- 
2.43.0


From 8ea4b251dee01fdce8aa7c460b44fde0da7bc59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 29/33] fix: object declarations in storage roots are checked
 as whole names [C12]

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 64f7b4a..2a00d97 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -321,7 +321,7 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
+                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)\Z""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
                         yield dirpath.lstrip("/")
                     elif match:
-- 
2.43.0


From b0cf456581b8beae826ee1d5d76391a529602210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 30/33] fix: do not add objects at paths reserved in storage
 roots

---
 ocfl/storage_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 2a00d97..0693eef 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -481,6 +481,8 @@ class StorageRoot():
         identifier = inventory.id
         # Now copy
         path = self.object_path(identifier)
+        if path.startswith("0=") or path.split("/")[0] == "extensions":
+            raise StorageRootException("Add object failed because destination path %s is reserved in a storage root" % (path))
         if self.root_fs.exists(path):
             raise StorageRootException("Add object failed because destination path %s already exists" % (path))
         parent = os.path.dirname(path)
-- 
2.43.0


From 508cf3f361c2a300e16114a57cc6463f4fedc8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:29 +0000
Subject: [PATCH 31/33] fix: report object declarations and sidecars that
 cannot be read

---
 ocfl/namaste.py   | 9 ++++++---
 ocfl/validator.py | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 3731959..fc7e0c9 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -122,13 +122,16 @@ class Namaste():
         if fsw is not None:
             try:
                 content = fsw.read_text(filepath)
-            except FileNotFoundError:
+            except (FileNotFoundError, IsADirectoryError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
                 raise NamasteException("Namaste file %s does not exist!" % (filepath))
-            with open(filepath, "r", encoding="utf-8") as fh:
-                content = fh.read()
+            try:
+                with open(filepath, "r", encoding="utf-8") as fh:
+                    content = fh.read()
+            except UnicodeDecodeError:
+                raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         if self.tvalue != self._tr_func(content):
             raise NamasteException("Content of Namaste file %s doesn't match tvalue %s" % (filepath, self.tvalue))
 
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 84d1ed6..e2ea2cc 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -239,7 +239,7 @@ class Validator():
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
                 if digest_actual != normalized_digest(digest_recorded, digest_algorithm):
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
-            except ValueError as e:  # pylint: disable=broad-except
+            except (ValueError, OSError) as e:  # wrong format or unreadable
                 self.log.error("E061", description=str(e))
         else:
             self.log.error("E058b", inv_digest_file=inv_digest_file)
-- 
2.43.0


From c132c7c1c2cad0a2589a7a2f29467bce0a91c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:10 +0000
Subject: [PATCH 32/33] fix: initialize a storage root with the specification
 version given to its constructor

---
 ocfl/storage_root.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 0693eef..4598c73 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -96,11 +96,11 @@ class StorageRoot():
         Raises:
             StorageRootException: if spec_version is not supported
 
-        Sets self.spec_version to spec_version if given and good,
-        otherwise to the default.
+        Sets self.spec_version to spec_version if given and good, otherwise
+        leaves a version set before, or else uses the default.
         """
-        if spec_version is None and self.spec_version is None:
-            spec_version = default
+        if spec_version is None:
+            spec_version = default if self.spec_version is None else self.spec_version
         if spec_version not in SPEC_VERSIONS_SUPPORTED:
             raise StorageRootException("Unsupported OCFL specification version %s requested" % (spec_version))
         self.spec_version = spec_version
-- 
2.43.0


From bae14fd7d8d2505fbc64390a14c40843897edb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:28 +0000
Subject: [PATCH 33/33] fix: judge an object by its own errors when a validator
 is used for several objects

---
 ocfl/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index e2ea2cc..c5add14 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -119,6 +119,7 @@ class Validator():
         when validating a storage root, for example.
         """
         self.initialize()
+        start_errors = self.log.num_errors  # there may be errors from other objects
         try:
             if isinstance(path, str):
                 self.obj_fs = fsw_openfs(path)
@@ -162,7 +163,7 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
-            inventory_is_valid = self.log.num_errors == 0
+            inventory_is_valid = self.log.num_errors == start_errors
             # Prior inventories can be compared only with a valid root inventory
             self.root_inv_validator = inv_validator if inventory_is_valid else None
             all_versions = inv_validator.all_versions
@@ -180,7 +181,7 @@ class Validator():
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
         except ValidatorAbortException:
             pass
-        return self.log.num_errors == 0
+        return self.log.num_errors == start_errors
 
     def validate_inventory(self, inv_file, where="root", force_spec_version=None):
         """Validate a given inventory file, record errors with self.log.error().
-- 
2.43.0

