#!/usr/bin/env python3
"""Regenerate properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


IV = "ocfl/inventory_validator.py"
prop("C01", "Inventory validation rejects every non-conforming inventory",
     "Whatever JSON value is given as an OCFL inventory, the inventory validator answers True only if the inventory meets every MUST of the OCFL specification it checks: required attributes with the right types and values, digest keys of the declared algorithm in the right form and unique ignoring case, well-formed and unique content and logical paths (no empty, '.' or '..' segment, no leading or trailing slash) none of which is also a directory of another, content paths under an existing version and the content directory, a gapless version sequence ending at head, RFC3339 creation times with timezone and seconds, every state digest literally a manifest key, every manifest digest that lists files used by some state, and fixity entries that name only manifest files. Any departure makes the answer False and is counted as at least one error.",
     ["inputs"], "every JSON value offered as an inventory: any number of versions, digests, paths, any strings, any mixture of types, in any order",
     "the tests look at about forty fixture or hand-made inventories, each with one defect at one place; which key, path, version or ordering carries the defect is never varied and combinations are not tried",
     [IV, "ocfl/digest.py", "ocfl/w3c_datetime.py"],
     [("InventoryValidator.validate and the per-block checks", IV)], observe=["InventoryValidator.validate return value", "log.num_errors"])
prop("C02", "Inventory validation accepts every conforming inventory",
     "Every inventory that meets all the MUSTs of the OCFL specification (any object id, either preferred digest algorithm, padded or unpadded version names, up to 999999 versions, any number of files, duplicates and fixity blocks, any case of hex digits, zero-length content) is accepted: the validator answers True and records no error, only warnings.",
     ["inputs"], "every conforming inventory, of any size and any choice of optional features",
     "about thirty conforming fixtures, most of them absent here; sizes, orders, letter case and optional features are not combined",
     [IV, "ocfl/digest.py", "ocfl/w3c_datetime.py"],
     [("InventoryValidator.validate and the per-block checks", IV)], observe=["InventoryValidator.validate return value", "log.num_errors"])
prop("C03", "Validating untrusted JSON never crashes and the verdict matches the errors",
     "Given any JSON value as inventory, the inventory validator terminates with a bool and never raises; the bool is True exactly when that call recorded no error. Object validation likewise reports a malformed inventory file (root or version) as a validation error rather than failing with an exception.",
     ["inputs"], "every JSON value: scalars, lists, objects with any attribute missing or of any type at any depth, strict or lax digests, with and without a forced specification version",
     "only dictionaries that are nearly valid inventories are tried; most ill-typed shapes at depth are never exercised",
     [IV, "ocfl/validator.py", "ocfl/validation_logger.py"],
     [("type guards before every use of untrusted data", IV), ("error counting", "ocfl/validation_logger.py")], observe=["return value", "exceptions"])
VA = "ocfl/validator.py"
prop("C04", "Object validation detects every content discrepancy and nothing else",
     "Validating an object whose inventories are valid passes only if the set of files under the version content directories is exactly the set listed in the manifest, every listed file's bytes have every digest recorded for it (manifest and fixity, in the root and in all version inventories), each inventory's sidecar holds that inventory's digest, the root inventory is identical to the head version's copy, and no unexpected file lies in the object root or a version directory. An object that meets all of this passes. With digest checking switched off only the comparisons of digests are skipped.",
     ["inputs"], "every object tree and every way of altering it: any file changed, removed, added or renamed in any version, any sidecar or inventory copy altered",
     "the fixture objects with discrepancies are one-defect examples (and the fixture submodule is empty here); position, version and combination never vary",
     [VA, "ocfl/fsw.py", "ocfl/digest.py"],
     [("Validator.validate_content", VA), ("Validator.check_additional_digests", VA), ("Validator.validate_inventory_digest_match", VA), ("Validator.validate_object_root", VA)],
     observe=["Validator.validate_object return value", "log.codes"])
prop("C05", "Inconsistent prior-version inventories are always detected",
     "When an earlier version's inventory is checked against the root inventory, the check passes only if its versions are a proper initial part of the root's and, for every shared version, both describe the same logical paths and each path's recorded content is still among the content the root inventory records for it (and, where both use the same digest algorithm, both name the same digests ignoring case); it passes for every pair that agrees in this way, whether or not the two use the same digest algorithm. Differences in creation time, message or user produce only warnings.",
     ["inputs", "histories"], "all pairs of individually valid inventories with any number of versions, files, duplicate content and different digest algorithms",
     "the tests use a handful of fixed pairs with one difference each",
     [IV, VA], [("InventoryValidator.validate_as_prior_version", IV), ("Validator.validate_version_inventories", VA)], observe=["validate_as_prior_version return value"])
NV = "ocfl/new_version.py"
prop("C06", "Editing a new version does exactly what was asked and keeps the inventory sound",
     "Starting from a valid inventory, after any sequence of add, delete and rename on a new version, the new version's state maps exactly the expected logical paths to the digests of their content, earlier versions' state is unchanged, every content path of the earlier versions is still recorded under the same digest, every digest in any state has at least one content path in the manifest, no content path occurs twice, and the set of files scheduled to be copied is exactly the content paths newly added to the manifest, where an addition stores a further copy of content already held only as the forward-delta and dedupe settings say. An edit that cannot be done (adding or renaming onto an existing logical path, deleting or renaming a missing one, a content path outside the new version or already used) is refused with an exception and changes neither state nor manifest. The difference with the previous version lists exactly the (digest, path) pairs gained and lost.",
     ["histories", "inputs"], "every sequence of edits over any starting inventory, with every combination of forward-delta, dedupe and path normalization",
     "tests run short fixed sequences with one or two files and look at a few fields",
     [NV, "ocfl/inventory.py"], [("NewVersion.add/delete/rename/diff_with_previous", NV), ("Version.add_file/delete_logical_path, Inventory.add_file_to_manifest", "ocfl/inventory.py")],
     observe=["nv.inventory.data", "nv.files_to_copy"])
OB = "ocfl/object.py"
prop("C07", "Created, built and updated objects are valid and hold exactly the given content",
     "Creating an object from a source directory, building one from a sequence of version directories, or adding a version yields, whatever the file names, contents, digest algorithm, content directory, specification version, dedupe and forward-delta settings, an object that validates with digests checked, whose id, specification version, digest algorithm and per-version metadata are the ones asked for, and in which each version's logical paths map to exactly the bytes of the corresponding source files.",
     ["inputs", "configurations", "histories"], "all source trees, numbers of versions and option combinations",
     "tests build from a few fixed trees and compare a few fields; option combinations and awkward names are not crossed",
     [OB, NV, "ocfl/inventory.py", "ocfl/fsw.py"],
     [("Object.build/create/add_version_with_content/write_new_version/write_inventory_and_sidecar/start_new_version", OB), ("NewVersion.first_version/next_version/_map_filepath", NV)],
     observe=["the object tree on storage", "Validator.validate_object"])
prop("C08", "Adding a version never alters what earlier versions hold",
     "Adding a version to a valid object, with any change of digest algorithm, fixity or content, leaves every file under the existing version directories byte-for-byte as it was, and every earlier version still resolves each of its logical paths to the same bytes through the new root inventory; the new version number is the successor of the old head in the same naming style. If the object is not valid the update is refused and nothing is written.",
     ["histories", "inputs"], "all valid objects, all sequences of updates",
     "tests add one or two versions to one or two fixture objects and check the last inventory only",
     [OB, NV, "ocfl/inventory.py", "ocfl/object_utils.py"],
     [("Object.start_new_version, write_new_version", OB), ("Inventory.add_version", "ocfl/inventory.py")], observe=["the object tree before and after"])
prop("C09", "Extraction reproduces a version exactly and stays in its destination",
     "Extracting a version (or head) of a valid object writes into the destination exactly the version's logical paths, each with exactly its content bytes, and nothing outside the destination, and returns that version's metadata; extracting one logical path writes just that file under its base name. A version or path that does not exist, or an existing non-empty destination, is refused with an exception and nothing is overwritten.",
     ["inputs"], "all valid objects, versions, logical paths and destinations",
     "a few fixture objects are extracted once and compared with known trees",
     [OB, "ocfl/fsw.py", "ocfl/inventory.py"], [("Object.extract, extract_file, _extract_setup", OB), ("fsw_copyfile", "ocfl/fsw.py")], observe=["destination tree", "source tree unchanged"])
prop("C10", "Version directory names are generated, parsed and ordered correctly",
     "A version directory name is accepted exactly when it is 'v' followed by a positive decimal number of at most five digits (leading zeros allowed), and parsing returns that number. The next name after any valid name denotes the number plus one in the same style (same width when zero padded, no padding otherwise), and a zero-padded name that cannot be incremented within its width, or a malformed name, is refused. The first name denotes one, in the requested zero-padded width (2 to 5) or unpadded, and an inventory's version list is always in increasing numeric order.",
     ["inputs"], "every string offered as a name, every version number and width",
     "eight or so sample names",
     ["ocfl/object_utils.py", "ocfl/inventory.py"], [("first_version_directory, next_version_directory, parse_version_directory", "ocfl/object_utils.py"), ("Inventory.version_directories", "ocfl/inventory.py")])
LY = "ocfl/layout.py"
prop("C11", "Layouts map object ids to safe, deterministic, distinct paths",
     "Each supported layout maps an object id to one relative path that depends only on the id and the layout parameters, has no empty, '.' or '..' segment and no leading slash, and follows the layout's published algorithm; ids it cannot map that way are refused with a layout exception. Two different ids never map to the same path. Layout parameters outside the documented ranges are refused.",
     ["inputs", "configurations"], "every object id that is valid Unicode text (empty, dots, slashes, very long, any characters) and every parameter value of every type",
     "tests map a dozen benign ids with default parameters",
     [LY, "ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py", "ocfl/layout_nnnn_tuple_tree.py", "ocfl/layout_nnnn_uuid_quadtree.py", "ocfl/layout_registry.py"],
     [("identifier_to_path of each layout", "ocfl/layout_*.py"), ("check_and_set_layout_params, check_*", LY)])
SR = "ocfl/storage_root.py"
prop("C12", "Storage root validation and listing cover every object and every defect",
     "Listing a storage root yields every object in it exactly once with its id, wherever it lies in the hierarchy, and never descends into objects or reports non-objects. Validating a storage root answers True only if the root declaration and layout are sound, there are no empty directories, stray files or bad declarations in the hierarchy, and (when objects are validated) every object is valid; a sound root whose objects are all valid is accepted, and the counts of objects and good objects are exact.",
     ["inputs", "configurations"], "all storage hierarchies of any depth and mixture of objects, stray files, empty directories and damaged objects",
     "a few fixture roots, and none in which one of several objects is damaged",
     [SR, "ocfl/fsw.py"], [("StorageRoot.object_paths, list_objects, validate_hierarchy, validate, check_root_structure", SR), ("fsw_walk", "ocfl/fsw.py")])
prop("C13", "Root creation and object addition are whole, placed by layout, never overwrite",
     "Initializing a storage root creates a root that can be opened again, with the requested specification version, layout and layout parameters, and refuses a location that already exists, leaving it untouched. Adding an object copies every file of a valid object byte-for-byte to the path its id has under the root's layout, so that it is then listed and valid; it refuses an object whose root inventory is not valid, an id whose path is reserved in storage roots (extensions, declarations) and any path that already exists or lies inside an object, leaving the root unchanged.",
     ["histories", "inputs", "configurations"], "all layouts and parameters, all objects and sequences of additions",
     "one or two objects are added to one layout",
     [SR, LY, "ocfl/layout_registry.py", "ocfl/fsw.py"], [("StorageRoot.initialize, add, object_path", SR), ("Layout.write_layout_params, read_layout_params", LY), ("fsw_copydir", "ocfl/fsw.py")])
prop("C14", "Digests are the standard digest of the whole content, compared ignoring case",
     "The digest computed for a file or string is the lower-case hex digest of its complete content under exactly the named algorithm (sha512, sha256, sha1, md5, and the blake2b-512/384/256/160 lengths for files; the two abbreviated forms as documented), whatever the content's size, and any other algorithm name is refused. The format check of each full-length algorithm accepts exactly hex strings of that algorithm's length in either case, and normalization identifies digests that differ only in letter case and no others.",
     ["inputs"], "all byte contents and sizes, all algorithm names, all strings offered as digests",
     "one or two tiny files per algorithm",
     ["ocfl/digest.py"], [("file_digest, _file_digest, string_digest, digest_regex, normalized_digest", "ocfl/digest.py")])
prop("C15", "W3C timestamps are accepted, rejected and converted correctly",
     "A timestamp string is accepted exactly when it has one of the documented W3C forms (timezone optional) and denotes a real date, time and offset; otherwise a ValueError is raised, never another exception. Values are seconds since the epoch with the fraction kept, strings without a time mean midnight UTC, an offset is applied to give UTC, and formatting a timestamp and parsing it back gives the same instant to the microsecond.",
     ["inputs"], "every string, every timestamp",
     "about forty sample strings",
     ["ocfl/w3c_datetime.py"], [("str_to_datetime, datetime_to_str", "ocfl/w3c_datetime.py")])
prop("C16", "File tree walk, copy and comparison are complete and exact",
     "Walking a directory tree visits every directory below the start that the caller has not pruned, exactly once, with all of its files and sub-directories. Copying a directory reproduces every file of the source with identical content at the same relative path, writes nothing outside the destination, and refuses an existing destination; copying a file reproduces its bytes whatever its size. Two files compare identical exactly when their bytes are equal.",
     ["inputs"], "all trees, file sizes (around every buffer boundary) and contents, starting directories",
     "tests walk one fixture tree and compare small files",
     ["ocfl/fsw.py"], [("fsw_walk, fsw_walk_files, fsw_copyfile, fsw_copydir, fsw_files_identical, _fsw_relpath", "ocfl/fsw.py")])
prop("C17", "Every error counts, whatever is logged",
     "Every reported validation error increments the error count by one and every warning the warning count, for any code and arguments and any language, and never raises; whether messages are kept depends only on the logging switches. Validation verdicts are therefore the same for every setting of the logging switches and language, and warnings never change a verdict.",
     ["inputs", "configurations"], "all codes, argument sets, languages and logging switches, all objects",
     "three or four codes are logged; verdicts are not compared across settings",
     ["ocfl/validation_logger.py", VA, IV], [("ValidationLogger.log, error, warning", "ocfl/validation_logger.py")])
prop("C18", "Namaste declarations round-trip and are checked",
     "Writing a Namaste declaration with given tag and content (not blank, without carriage returns) and then looking for that tag finds exactly that declaration, and its content check succeeds; a declaration file whose content does not correspond to its name, or that is missing, fails the check. Finding declarations returns all and only the directory entries of that tag, in sorted order, and refuses more than the limit; the file name value has at most 40 characters, all of them word characters, '.', '-' or ':' or replaced by '_'.",
     ["inputs"], "all tags, contents (any Unicode, any length) and directory listings",
     "a few fixed names",
     ["ocfl/namaste.py"], [("content_to_tvalue, find_namastes, get_namaste, Namaste", "ocfl/namaste.py")])
prop("C19", "Reading operations never modify storage",
     "Validating an object, an inventory or a storage root, listing a storage root, showing an object tree, and reading an inventory perform no operation that creates, changes or removes anything on the storage they read; extraction changes nothing in the object it reads.",
     ["inputs"], "all objects, roots and option settings, valid or not",
     "no test compares the storage before and after",
     [VA, OB, SR, IV, "ocfl/fsw.py", "ocfl/namaste.py"], [("read-only use of the filesystem interface", VA)])
prop("C20", "Inventory queries agree with the inventory data",
     "For every inventory, the reported logical paths, content paths, digests, content path for a logical path, version numbers and latest version holding a logical path are exactly those recorded in the manifest and version blocks, with missing blocks read as empty and unknown paths as none; querying never changes the data. Normalizing digests (of an inventory whose digests are unique ignoring case) changes only the letter case of digests and keeps every digest's list of files.",
     ["inputs"], "every inventory with any number of versions, digests and paths, including empty and absent blocks",
     "one fixture inventory and a few look-ups",
     ["ocfl/inventory.py"], [("Inventory and Version accessors", "ocfl/inventory.py"), ("Inventory.normalize_digests", "ocfl/inventory.py")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
