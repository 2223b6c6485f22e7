"""C13: storage root creation and adding objects."""
import json
import os

import c11
import model
import objops
from common import text
from objops import Bad

RULE = "storage roots made with every layout, specification version, good and bad layout parameters, and locations that exist in some form; then sequences of objects added (odd ids, ids already there, ids whose path lies in or above another's, damaged objects), each followed by listing and validation and comparison of all bytes"
IDS = ["http://example.org/a", "x:y", "é", "a/b", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c9", ".", "..", "ab", "abab", "ababab", "a", "a b", "%41", "A", "x" * 120, "x" * 110 + "y" * 10, "[a]", "*", "0=x", "extensions",
       "a\nb", "ab/ab", "ocfl_layout.json", "0=ocfl_1.1", "extensions/x", "abx", "uid:6ba7", "a.b", "a,b"]


def gen_params(rng, name):
    if name is None or rng.random() < 0.4:
        return None
    if name == "0003":
        p = {"digestAlgorithm": rng.choice(["md5", "sha256", "sha512", "sha1", "x"]), "tupleSize": rng.choice([0, 1, 2, 3, 8, 33, "2"]), "numberOfTuples": rng.choice([0, 1, 2, 4, 8, 40])}
        if rng.random() < 0.1:
            del p[rng.choice(sorted(p))]
        return p
    if name == "nnnn-tuple-tree":
        return {"tupleSize": rng.choice([2, 3, 4, 6, 1, 7])}
    if name == "nnnn-uuid-quadtree":
        return {"prefix": rng.choice(["urn:uuid:", "urn:u", "u", ""])}
    return {}


def gen(rng):
    name = rng.choice(["0002", "0003", "flat-quoted", "nnnn-tuple-tree", "nnnn-uuid-quadtree", "0003", "nnnn-tuple-tree", "nnnn-tuple-tree", None])
    params = gen_params(rng, name)
    ptext = None
    if params is not None:
        ptext = json.dumps(params)
        if rng.random() < 0.05:
            ptext = rng.choice(["{", "", "nope"])
    objs = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        o = model.gen_object(rng, nv=rng.choice([1, 1, 2, 3]))
        f = dict(o.files)
        kind = "good"
        oid = rng.choice(IDS) if rng.random() < 0.9 else (text(rng) or "q")
        f = reid(f, oid)
        if rng.random() < 0.15:
            kind = "bad"
            r = rng.randrange(4)
            if r == 0:
                f["inventory.json"] = b"{"
            elif r == 1:
                del f["inventory.json"]
            elif r == 2:
                x = json.loads(f["inventory.json"])
                x["head"] = "v77"
                f["inventory.json"] = json.dumps(x).encode()
            else:
                f["inventory.json"] = b"[]"
        objs.append({"files": objops.hx(f), "dirs": sorted(o.dirs), "id": oid, "kind": kind})
    return {"layout": name, "params": params, "ptext": ptext, "spec": rng.choice([None, "1.0", "1.1", "1.1", "2.0"]) if rng.random() < 0.9 else "1.0", "where": rng.choice([None] * 8 + ["dir", "file", "full", "noparent"]),
            "objs": objs, "rootname": rng.choice(["r", "a b", "é", "%41", "[x]"]), "long": rng.random() < 0.5}


def reid(f, oid):
    """The same object with another id."""
    f = dict(f)
    for k in [x for x in f if x.endswith("inventory.json") and x.count("/") <= 1 and (x == "inventory.json" or "/" in x and x.split("/")[1] == "inventory.json")]:
        x = json.loads(f[k])
        x["id"] = oid
        f[k] = json.dumps(x).encode()
        a = x["digestAlgorithm"]
        f[k + "." + a] = model.digest(a, f[k]).encode() + b" inventory.json\n"
    if len([k for k in f if k == "inventory.json"]) == 1:
        a = json.loads(f["inventory.json"])
        h = a["head"] + "/inventory.json"
        if h in f:
            f[h] = f["inventory.json"]
            f[h + "." + a["digestAlgorithm"]] = model.digest(a["digestAlgorithm"], f[h]).encode() + b" inventory.json\n"
    return f


def do(w, d, inp):
    from ocfl.storage_root import StorageRoot
    name = inp["layout"]
    lname = None if name is None else c11.LONG[name] if inp["long"] else {"0002": "flat-direct", "0003": "0003"}.get(name, name)
    root = d + "/" + inp["rootname"]
    if inp["where"] == "dir":
        os.mkdir(root)
    elif inp["where"] == "file":
        open(root, "w").close()
    elif inp["where"] == "full":
        model.write(root, {"0=ocfl_1.0": b"ocfl_1.0\n"})
    elif inp["where"] == "noparent":
        root = d + "/nope/r"
    before = model.snapshot(d)
    err = None
    spec = inp["spec"]
    try:
        early = spec in ("1.0", "1.1") and len(inp["rootname"]) % 2 == 0        # the version may be given on construction
        sr = StorageRoot(root=root, layout_name=lname, spec_version=spec if early else None)
        sr.initialize(spec_version=None if early else spec, layout_params=inp["ptext"])
    except Exception as e:
        err = e
    pok = inp["params"] is None or (inp["ptext"] == json.dumps(inp["params"]) and c11.params_ok(name, inp["params"]))
    expect = inp["where"] is None and spec in (None, "1.0", "1.1") and (pok or name is None)
    if not expect:
        if err is None:
            raise Bad("initialize went through (location %s, spec %s, layout %s, params %r)" % (inp["where"], spec, name, inp["ptext"]))
        if model.snapshot(d) != before:
            raise Bad("a refused initialize changed the storage: %r" % err)
        return
    if err is not None:
        raise err
    after = model.snapshot(root)
    spec = spec or "1.1"
    files = {k: b for k, b in after.items() if b is not None}
    if files.get("0=ocfl_" + spec) != ("ocfl_%s\n" % spec).encode() or sum(k.startswith("0=") for k in files) != 1:
        raise Bad("declaration of the new root is wrong: %r" % sorted(files))
    if (name is None) == ("ocfl_layout.json" in files):
        raise Bad("layout file present although none asked for, or missing")
    if name is not None and json.loads(files["ocfl_layout.json"])["extension"] != c11.LONG[name]:
        raise Bad("layout file names %r" % json.loads(files["ocfl_layout.json"]))
    sr = StorageRoot(root=root)
    if list(sr.list_objects()) != []:
        raise Bad("new root lists objects")
    if sr.spec_version != spec or (name is not None and sr.layout.NAME != c11.LONG[name]):
        raise Bad("reopened root has spec version %r, layout %r" % (sr.spec_version, sr.layout))
    if StorageRoot(root=root).validate() is not True:
        raise Bad("new root does not validate")
    for k, v in (inp["params"] or {}).items():
        if k in c11.ATTR and name is not None and getattr(sr.layout, c11.ATTR[k]) != v:
            raise Bad("reopened root has %s %r, asked for %r" % (k, getattr(sr.layout, c11.ATTR[k]), v))
    if name is None:
        return
    present = {}
    params = inp["params"] or {}
    for n, o in enumerate(inp["objs"]):
        src = d + "/o%d" % n
        f = objops.unhx(o["files"])
        model.write(src, f, o["dirs"])
        s0 = model.snapshot(src)
        b0 = model.snapshot(root)
        p = c11.spec(name, params, o["id"])
        if p is not None and any(x in ("", ".", "..") for x in p.split("/")):
            p = None
        free = p is not None and p not in b0 and all("/".join(p.split("/")[:i]) not in b0 or (b0["/".join(p.split("/")[:i])] is None and "/".join(p.split("/")[:i]) not in present) for i in range(1, len(p.split("/"))))
        if p is not None and (p.split("/")[0] == "extensions" or p.startswith("0=")):
            free = False
        if p is not None and any(len(x.encode()) > 255 for x in p.split("/")):
            continue
        err = None
        try:
            r = StorageRoot(root=root).add(src)
        except Exception as e:
            err = e
        a1 = model.snapshot(root)
        if model.snapshot(src) != s0:
            raise Bad("add changed its source")
        if o["kind"] == "bad" or not free:
            if err is None:
                raise Bad("adding object %r (%s, path %r) was not refused" % (o["id"], o["kind"], p))
            if a1 != b0:
                raise Bad("a refused add changed the root: %r" % sorted(set(a1) ^ set(b0))[:5])
            continue
        if err is not None:
            raise err
        if r != (o["id"], p):
            raise Bad("add returned %r, expected %r" % (r, (o["id"], p)))
        new = {k: b for k, b in a1.items() if b is not None and k not in b0}
        if any(k not in a1 or a1[k] != b0[k] for k in b0):
            raise Bad("add changed what was there")
        if new != {p + "/" + k: b for k, b in f.items()}:
            raise Bad("files added %r, expected %r" % (sorted(new)[:6], sorted(p + "/" + k for k in f)[:6]))
        present[p] = o["id"]
        got = sorted(StorageRoot(root=root).list_objects())
        if got != sorted(present.items()):
            raise Bad("listing after add gives %r, expected %r" % (got, sorted(present.items())))
        if o["dirs"]:
            return      # known finding: empty version directories are not copied
        sv = StorageRoot(root=root)
        if sv.validate() is not True:
            raise Bad("root not valid after adding a valid object: %r %r" % (sv.errors[:2], sv.log.codes))


def run(w):
    while w.more():
        objops.guard(w, gen(w.rng), do)


def replay(w, inp):
    objops.guard(w, inp, do)
