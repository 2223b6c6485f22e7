"""C19: reading operations never modify storage."""
import os

import c12
import c17
import model
import objops
from objops import Bad

RULE = "generated (and absent) objects and storage roots (good and damaged); validate, list, show, read, extract; contents, kinds, modes and modification times of everything in the storage compared before and after, storage also made read-only"


def state(d):
    out = {}
    for dp, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(dp, n)
            s = os.lstat(p)
            b = None
            if n in fs:
                with open(p, "rb") as fh:
                    b = fh.read()
            out[os.path.relpath(p, d)] = (s.st_mode, s.st_mtime_ns, s.st_ino, b)
    s = os.lstat(d)
    out["."] = (s.st_mode, s.st_mtime_ns, s.st_ino, None)
    return out


def ops(kind, d, out):
    """name -> function"""
    from ocfl.object import Object
    from ocfl.object_utils import find_path_type
    from ocfl.inventory import Inventory
    from ocfl.namaste import find_namastes
    from ocfl.storage_root import StorageRoot
    from ocfl.validator import Validator
    if kind == "object":
        yield "validate", lambda: Object().validate(d)
        yield "validate no digests", lambda: Object(path=d).validate(check_digests=False)
        yield "validator", lambda: Validator(log_warnings=True, lax_digests=True).validate_object(d)
        yield "tree", lambda: Object().tree(d)
        yield "parse_inventory", lambda: Object(path=d).parse_inventory()
        yield "id", lambda: Object(path=d).id_from_inventory()
        yield "validate_inventory", lambda: Object().validate_inventory(d + "/inventory.json")
        yield "inventory", lambda: Inventory(filepath=os.path.join(d, "inventory.json")).find_logical_path("a")
        yield "path type", lambda: find_path_type(d)
        yield "namaste", lambda: find_namastes(0, d)[0].content_ok(d)
        yield "extract", lambda: Object().extract(d, "head", out + "/x")
        yield "extract v1", lambda: Object().extract(d, "v1", out + "/y")
        yield "extract_file", lambda: Object().extract_file(d, "head", out + "/z", "a")
        yield "extract no version", lambda: Object().extract(d, "v99", out + "/w")
        for p in (d + "/nothing", d + "/nothing/at/all", d + "/v1/nothing"):
            yield "validate nothing", lambda p=p: Object().validate(p)
            yield "tree nothing", lambda p=p: Object().tree(p)
            yield "parse nothing", lambda p=p: Object(path=p).parse_inventory()
            yield "validate_inventory nothing", lambda p=p: Object().validate_inventory(p + "/inventory.json")
            yield "path type nothing", lambda p=p: find_path_type(p)
            yield "extract nothing", lambda p=p: Object().extract(p, "head", out + "/q")
            yield "list nothing", lambda p=p: list(StorageRoot(root=p).list_objects())
            yield "validate root nothing", lambda p=p: StorageRoot(root=p).validate()
        yield "start version", lambda: Object().start_new_version(objdir=d, carry_content_forward=True)
    else:
        yield "list", lambda: list(StorageRoot(root=d).list_objects())
        yield "validate", lambda: StorageRoot(root=d).validate()
        yield "validate hierarchy", lambda: StorageRoot(root=d).validate(validate_objects=False, log_warnings=True)
        yield "path type", lambda: find_path_type(d)
        yield "object_path", lambda: StorageRoot(root=d).object_path("urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8")


def do(w, d, inp):
    model.write(d + "/s", objops.unhx(inp["files"]), inp["dirs"])
    os.mkdir(d + "/out")
    os.mkdir(d + "/cwd")
    s0 = state(d + "/s")
    ro = inp["ro"]
    if ro:
        for dp, ds, fs in os.walk(d + "/s"):
            os.chmod(dp, 0o555)
            for f in fs:
                os.chmod(os.path.join(dp, f), 0o444)
        s0 = state(d + "/s")
    cwd = os.getcwd()
    os.chdir(d + "/cwd")
    try:
        for name, f in ops(inp["kind"], d + "/s", d + "/out"):
            try:
                f()
            except Exception:
                pass
            s1 = state(d + "/s")
            if s1 != s0:
                ch = sorted(k for k in set(s0) | set(s1) if s0.get(k) != s1.get(k))
                raise Bad("%s changed %r in the storage it reads" % (name, ch[:5]))
            if os.listdir(d + "/cwd"):
                raise Bad("%s wrote %r in the current directory" % (name, os.listdir(d + "/cwd")))
    finally:
        os.chdir(cwd)
        for dp, ds, fs in os.walk(d + "/s"):
            os.chmod(dp, 0o755)


def gen(rng):
    r = rng.random()
    if r < 0.15:
        # a root with a layout, with or without its parameters; and paths at which there is nothing
        import json
        name = rng.choice(["0003-hash-and-id-n-tuple-storage-layout", "0002-flat-direct-storage-layout", "nnnn-flat-quoted-storage-layout", "nnnn-tuple-tree", "nnnn-uuid-quadtree", "unknown"])
        files = {"0=ocfl_1.0": b"ocfl_1.0\n", "ocfl_layout.json": json.dumps({"extension": name, "description": "d"}).encode()}
        dirs = ["extensions"] if rng.random() < 0.4 else ["extensions", "extensions/" + name] if rng.random() < 0.6 else []
        if rng.random() < 0.3:
            files["extensions/%s/config.json" % name] = json.dumps(rng.choice([{"extensionName": name}, {"extensionName": name, "digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 2}, {}, [1]])).encode()
        return {"kind": "root", "files": objops.hx(files), "dirs": dirs, "ro": rng.random() < 0.2}
    if r < 0.6:
        o = model.gen_object(rng, nv=rng.choice([1, 2, 3]))
        return {"kind": "object", "files": objops.hx(c17.damage(rng, o) if rng.random() < 0.7 else o.files), "dirs": sorted(o.dirs), "ro": rng.random() < 0.2}
    g = c12.gen(rng)
    return {"kind": "root", "files": g["files"], "dirs": g["dirs"], "ro": rng.random() < 0.2}


def run(w):
    while w.more():
        objops.guard(w, gen(w.rng), do)


def replay(w, inp):
    objops.guard(w, inp, do)
