"""C12: storage root listing and validation."""
import json
import os

import model
import objops
from common import word
from objops import Bad

RULE = "generated storage roots: 0-6 objects (valid, damaged, without readable inventory) at depths 1-5 with odd directory names, extensions directories, files beside them; each with no defect or one defect of known effect (empty directory, stray file, double/unknown declaration, bad root declaration, bad layout file or parameters, entry in extensions); list, validate with and without objects, with and without digests, error limits"
NAMES = ["a", "b", "c", "é", "a b", "%41", "x.y", "v1", "content", "0", "A", "[a]", "*", "a\nb", "x" * 60, "extensions", "0=x", "ab", "a=b", "..x", ".h", "inventory.json", "~"]


def nested(rng, files, p):
    """An object below a place where no object is looked for."""
    o = model.gen_object(rng, nv=1)
    for k, b in o.files.items():
        files[p + "/nested/o/" + k] = b


def gen(rng):
    dirs, files = [], {}
    root = rng.choice(["1.0", "1.1"])
    files["0=ocfl_" + root] = "ocfl_%s\n" % root
    objs = []

    def place():
        for _ in range(20):
            p = [rng.choice([n for n in NAMES if n not in ("extensions", "0=x")])] + [rng.choice(NAMES) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
            p = "/".join(p)
            if all(not (q + "/").startswith(p + "/") and not (p + "/").startswith(q + "/") for q in [x[0] for x in objs] + dirs + list(files)):
                return p
        return None
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        p = place()
        if p is None:
            continue
        o = model.gen_object(rng, nv=rng.choice([1, 1, 2]))
        f = dict(o.files)
        r = rng.random()
        kind = "good"
        inv = json.loads(f["inventory.json"])
        oid = inv["id"]
        if r < 0.1:
            f["extra"] = b"x"
            kind = "bad"
        elif r < 0.15 and o.content:
            k = rng.choice(sorted(o.content))
            f[k] = f[k] + b"!"
            kind = "digest"
        elif r < 0.2:
            f["inventory.json"] = rng.choice([b"{", b"", b"[]", b"\xff", b"null", b"{}"])
            kind, oid = "bad", "UNKNOWN-ID"
        elif r < 0.23:
            del f["inventory.json"]
            kind, oid = "bad", "UNKNOWN-ID"
        elif r < 0.27:
            f["0=ocfl_object_" + o.spec] = b"junk"
            kind = "bad"
        if rng.random() < 0.08:
            # nothing but a declaration beside directories
            f = {k: b for k, b in f.items() if "/" in k or k.startswith("0=")}
            kind, oid = "bad", "UNKNOWN-ID"
            nested(rng, files, p)
        objs.append((p, kind))
        for k, b in f.items():
            files[p + "/" + k] = b
        for k in o.dirs:
            dirs.append(p + "/" + k)
        objs[-1] = (p, kind, oid)
    objs = [x for x in objs if len(x) == 3]
    structure, hierarchy = True, 0
    if rng.random() < 0.3:
        files["README"] = "x"
    if rng.random() < 0.3:
        for n in rng.sample(["0002-flat-direct-storage-layout", "unknown", "0003-hash-and-id-n-tuple-storage-layout"], rng.choice([1, 2])):
            files["extensions/" + n + "/config.json"] = "{}" if n == "unknown" else json.dumps({"extensionName": n, "digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 2})
    r = rng.random()
    lay = {"extension": "0002-flat-direct-storage-layout", "description": "d"}
    if r < 0.3:
        lay["extension"] = rng.choice(["0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout", "flat-direct"])
        files["ocfl_layout.json"] = json.dumps(lay)
    what = "none"
    d = rng.choice(["none"] * 6 + ["empty", "stray", "double", "unsupported", "baddecl", "ext", "empty", "stray", "double", "unsupported", "baddecl", "ext", "rootdecl", "layout"])
    if d in ("empty", "stray", "double", "unsupported", "baddecl"):
        p = place()
        if p is not None:
            what = d
            hierarchy = 1
            if d == "empty":
                dirs.append(p)
            elif d == "stray":
                files[p + "/" + rng.choice(["x", "ocfl_object_1.1", "00=ocfl_object_1.1", "1=ocfl_object_1.1", "O=ocfl_object_1.0", "=ocfl", "README"])] = "x"
            elif d == "double":
                for n in rng.sample(["0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=x", "0="], 2):
                    files[p + "/" + n] = n[2:] + "\n"
            elif d == "unsupported":
                n = rng.choice(["0=ocfl_object_1.2", "0=ocfl_object_2.0", "0=ocfl_object_1.10", "0=ocfl_object_0.1", "0=ocfl_object_11.1"])
                files[p + "/" + n] = n[2:] + "\n"
            else:
                n = rng.choice(["0=ocfl_object_", "0=ocfl_1.1", "0=ocfl_object_1", "0=", "0=OCFL_object_1.1", "0=ocfl_object_1.x", "0=ocfl_objects_1.1", "0=ocfl_object_1.1x", "0=ocfl_object_1.1\n", "0=ocfl_object_1.1.1", "0=ocfl_object_1.0 "])
                files[p + "/" + n] = n[2:] + "\n"
            if rng.random() < 0.3 and d != "empty":
                # directories below are not looked at
                files[p + "/sub/x"] = b"x"
                if rng.random() < 0.5:
                    nested(rng, files, p)
    elif d == "ext":
        what = d
        hierarchy = 1
        files["extensions/" + rng.choice(["x", "config.json", "0002-flat-direct-storage-layout.x"])] = "x"
    elif d == "rootdecl":
        what = d
        structure = False
        n = "0=ocfl_" + root
        r = rng.randrange(5)
        if r == 0:
            del files[n]
        elif r == 1:
            files[rng.choice(["0=ocfl_1.7", "0=x", "0=ocfl_object_1.1", "0=ocfl_" + ("1.0" if root == "1.1" else "1.1")])] = "x"
        elif r == 2:
            files[n] = rng.choice(["", "x", "ocfl_1.2\n", "ocfl_object_1.1\n", "ocfl_" + ("1.0" if root == "1.1" else "1.1")])
        elif r == 3:
            del files[n]
            m = rng.choice(["0=ocfl_1.2", "0=ocfl_1.10", "0=ocfl_object_1.1", "0=ocfl_", "0=ocfl_1.1x", "0=ocfl_1", "0=OCFL_1.1"])
            files[m] = m[2:] + "\n"
        else:
            del files[n]
            files["1=ocfl_" + root] = "ocfl_%s\n" % root
    elif d == "layout":
        what = d
        structure = False
        files["ocfl_layout.json"] = rng.choice(["", "{", "[]", "null", "{}", '"x"', json.dumps({"extension": "0002-flat-direct-storage-layout"}), json.dumps({"description": "x"}), json.dumps({"extension": 1, "description": "x"}),
                                                json.dumps({"extension": "nope", "description": "x"}), json.dumps({"extension": "0002-flat-direct-storage-layout", "description": None}),
                                                json.dumps({"extension": "0002-flat-direct-storage-layout\n", "description": ""})])
    enc = {k: (x.encode() if isinstance(x, str) else x).hex() for k, x in files.items()}
    return {"files": enc, "dirs": sorted(dirs), "objs": objs, "structure": structure, "hierarchy": hierarchy, "what": what, "root": root,
            "opts": {"validate_objects": rng.random() < 0.75, "check_digests": rng.random() < 0.7, "log_warnings": rng.random() < 0.3, "log_errors": rng.random() < 0.8, "max_errors": rng.choice([100, 0, 1])},
            "spec": rng.choice([None, None, None, "1.0", "1.1"])}


def do(w, d, inp):
    from ocfl.storage_root import StorageRoot, StorageRootException
    files = objops.unhx(inp["files"])
    model.write(d + "/r", files, inp["dirs"])
    kw = {} if inp["spec"] is None else {"spec_version": inp["spec"]}
    structure = inp["structure"] and inp["spec"] in (None, inp["root"])
    objs = [tuple(x) for x in inp["objs"]]
    # listing
    sr = StorageRoot(root=d + "/r", **kw)
    try:
        got = list(sr.list_objects())
        err = None
    except StorageRootException as e:
        err = e
    if not structure:
        if err is None:
            raise Bad("list_objects gave %r for a root that is not sound (%s)" % (got, inp["what"]))
    else:
        if err is not None:
            raise err
        exp = sorted((p, i) for p, _, i in objs)
        if sorted(got) != exp:
            raise Bad("list_objects gave %r, expected %r" % (sorted(got), exp))
        if sr.num_objects != len(exp):
            raise Bad("num_objects is %r after listing, expected %d" % (sr.num_objects, len(exp)))
    # validation
    o = inp["opts"]
    sr = StorageRoot(root=d + "/r", **kw)
    for rnd in (0, 1):
        r = sr.validate(**o)
        ok = [k == "good" or (k == "digest" and not o["check_digests"]) for _, k, _ in objs]
        exp = structure and not inp["hierarchy"] and (all(ok) or not o["validate_objects"])
        if r is not exp:
            raise Bad("validate(%r) gave %r, expected %r (%s) %s %s" % (o, r, exp, inp["what"], sr.log and sr.log.codes, sr.errors and sr.errors[:2]))
        if structure and o["validate_objects"]:
            if (sr.num_objects, sr.good_objects) != (len(objs), sum(ok)):
                raise Bad("counts are %r, expected %r" % ((sr.num_objects, sr.good_objects), (len(objs), sum(ok))))
            bad = sorted(p for (p, _, _), k in zip(objs, ok) if not k)
            if not o["log_warnings"] and o["max_errors"] == 100 and sorted(p for p, _ in sr.errors) != bad:
                raise Bad("errors are about %r, expected %r" % (sorted(p for p, _ in sr.errors), bad))


def run(w):
    while w.more():
        objops.guard(w, gen(w.rng), do)


def replay(w, inp):
    objops.guard(w, inp, do)
