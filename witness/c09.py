"""C09: extraction reproduces a version exactly and stays in its destination."""
import json
import os

import model
import objops
from objops import Bad

RULE = "random valid objects (1-11 versions, odd logical and content paths, duplicate content, mixed case digests, differing algorithms), every version and head, destinations new / empty / not empty / a file / relative / without parent; single logical paths present, absent, in nested directories, and destinations already holding that name"


def check_meta(md, inv, v):
    b = inv["versions"][v]
    u = b.get("user", {})
    exp = (inv["id"], v, b.get("created"), b.get("message"), u.get("name"), u.get("address"))
    got = (md.id, md.version, md.created, md.message, md.name, md.address)
    if got != exp:
        raise Bad("metadata returned %r, the version has %r" % (got, exp))


def do_extract(w, d, inp):
    files = objops.unhx(inp["files"])
    model.write(d + "/obj", files, inp["dirs"])
    os.makedirs(d + "/out")
    with open(d + "/out/keep", "wb") as fh:
        fh.write(b"keep")
    inv = json.loads(files["inventory.json"])
    dst = d + "/out/" + inp["dst"]
    pre = inp["pre"]
    if pre == "empty":
        os.makedirs(dst)
    elif pre == "full":
        os.makedirs(dst)
        open(dst + "/.x", "w").close()
    elif pre == "sub":
        os.makedirs(dst + "/sub")
    elif pre == "file":
        with open(dst, "w") as fh:
            fh.write("old")
    elif pre == "same":
        os.makedirs(dst)
        with open(dst + "/" + os.path.basename(inp["path"]), "w") as fh:
            fh.write("old")
    elif pre == "noparent":
        dst += "/nope/x"
    before = model.snapshot(d)
    v = inv["head"] if inp["version"] == "head" else inp["version"]
    known = v in inv["versions"]
    arg = os.path.relpath(dst, d) if inp["relative"] else dst + inp["tail"]
    from ocfl.object import Object
    cwd = os.getcwd()
    err = md = None
    try:
        os.chdir(d)
        o = Object()
        if inp["path"] is None:
            md = o.extract(d + "/obj", inp["version"], arg)
        else:
            md = o.extract_file(d + "/obj", inp["version"], arg, inp["path"])
    except Exception as e:
        err = e
    finally:
        os.chdir(cwd)
    after = model.snapshot(d)
    exp = objops.resolve(files, v, inv) if known else {}
    refuse = not known or pre in ("file", "noparent") or (inp["path"] is None and pre in ("full", "sub")) or (inp["path"] is not None and (inp["path"] not in exp or pre == "same"))
    rel = os.path.relpath(dst, d)
    if refuse:
        if err is None:
            raise Bad("extraction of %r from %s into a destination that is %s was not refused" % (inp["path"], inp["version"], pre))
        for k, x in after.items():
            if k in before and before[k] != x:
                raise Bad("refused extraction changed %s" % k)
            if k not in before and not (x is None and (k == rel or rel.startswith(k + "/"))):
                raise Bad("refused extraction wrote %s" % k)
        if set(before) - set(after):
            raise Bad("refused extraction removed something")
        return
    if err is not None:
        raise err
    if inp["path"] is not None:
        exp = {os.path.basename(inp["path"]): exp[inp["path"]]}
    new = {k: x for k, x in after.items() if k not in before or before[k] != x}
    if set(before) - set(after):
        raise Bad("extraction removed %r" % sorted(set(before) - set(after))[:4])
    got = {}
    for k, x in new.items():
        if k != rel and not k.startswith(rel + "/"):
            raise Bad("extraction wrote %s outside the destination %s" % (k, rel))
        if x is not None:
            got[k[len(rel) + 1:]] = x
        elif k != rel and not any(e.startswith(k[len(rel) + 1:] + "/") for e in exp):
            raise Bad("extraction made an extra directory %s" % k)
    if got != exp:
        raise Bad("extraction gave %r, expected %r" % (sorted(got.items())[:6], sorted(exp.items())[:6]))
    if md is None:
        raise Bad("no metadata returned")
    check_meta(md, inv, v)


def gen(rng):
    o, inp = objops.gen_obj_input(rng, mixed_alg=rng.random() < 0.2)
    version = rng.choice(["head", o.vdirs[-1], rng.choice(o.vdirs), rng.choice(o.vdirs), rng.choice(o.vdirs), rng.choice(["v0", "v99", "V1", "1", "", "v", "v1 ", "vv1", "v0001", o.vdirs[0] + "0"])])
    path = None
    if rng.random() < 0.5:
        allp = sorted({p for s in o.states for p in s})
        path = rng.choice(allp + ["nope", "x/nope"]) if allp else "nope"
        if rng.random() < 0.1:
            path = rng.choice([path.upper(), "/" + path, path + "/", os.path.basename(path), os.path.dirname(path) or "a", path[:-1] or "q"])
    pre = rng.choice([None, None, None, "empty", "empty", "full", "sub", "file", "noparent"] + (["same", "full", "empty"] if path and os.path.basename(path) else []))
    inp.update({"kind": "extract", "version": version, "path": path, "pre": pre, "dst": rng.choice(["x", "new", "é", "a b", "%41", "v1", "[x]", "*"]), "relative": rng.random() < 0.2,
                "tail": rng.choice(["", "", "", "/"])})
    return inp


def run(w):
    while w.more():
        objops.guard(w, gen(w.rng), do_extract)


def replay(w, inp):
    objops.guard(w, inp, do_extract)
