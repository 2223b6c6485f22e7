"""Shared by C07, C08, C09: creating, building, updating, extracting objects."""
import json
import os

import model
from common import text

SRC = ["a", "b", "c.txt", "a b", "é", "%41", "A", "a%2Fb", "-x", ".h", "%2Eh", ".H", "d/a", "d/b", "d/e/f", "D/a", "a+b", "~", "x" * 80, "a:b", "d/.h", "..x", "q/..y", "a\nb", "inventory.json", "v1/content/a", "0=ocfl_object_1.1",
       "a\\b", "[a]", "*", "?", "a?b", "{a}", "e\u0301", "\U0001F600", "a/__2", "a__2", "%2e", "d%2Fa", "#", "'", "\""]
POOL = [b"", b"a", b"b", b"content\n", b"x" * 100, b"\r\n", b"\xff\x00", "é".encode()]


class Bad(Exception):
    pass


def gen_src(rng, pool=POOL, n=None):
    src = {}
    for p in rng.sample(SRC, n if n is not None else rng.choice([0, 1, 2, 4, 8])):
        if model.add_path(src, p):
            src[p] = rng.choice(pool)
    return src


def gen_meta(rng):
    m = {}
    if rng.random() < 0.8:
        m["created"] = rng.choice(["2020-01-01T00:00:00Z", "2019-12-31T23:59:59.123+01:00"])
    if rng.random() < 0.7:
        m["message"] = rng.choice(["", "m", text(rng)])
    if rng.random() < 0.6:
        m["name"] = rng.choice(["", "A", "é"])
        if rng.random() < 0.6:
            m["address"] = rng.choice(["mailto:a@b", "", "x"])
    return m


def meta_obj(m):
    from ocfl.version_metadata import VersionMetadata
    return None if m is None else VersionMetadata(**m)


def meta_ok(block, m):
    """Does the version block have the metadata asked for?"""
    m = m or {}
    for k in ("created", "message"):
        if k in m and block.get(k) != m[k]:
            return "%s is %r, asked for %r" % (k, block.get(k), m[k])
    if "message" not in m and "message" in block:
        return "message %r not asked for" % block["message"]
    u = block.get("user", {})
    for k in ("name", "address"):
        if u.get(k) != m.get(k):
            return "user %s is %r, asked for %r" % (k, u.get(k), m.get(k))
    return None


def resolve(files, v, inv=None):
    """logical path -> bytes of a version, from the files of the object."""
    inv = inv or json.loads(files["inventory.json"])
    out = {}
    for d, fl in inv["versions"][v]["state"].items():
        cps = inv["manifest"][d]
        for f in fl:
            if f in out:
                raise Bad("logical path %r twice in %s" % (f, v))
            out[f] = files[cps[0]]
            if any(files[c] != out[f] for c in cps):
                raise Bad("content files %r differ" % cps)
    return out


def valid(d, lax=False):
    from ocfl.validator import Validator
    v = Validator(lax_digests=lax, log_errors=True)
    return v.validate_object(d), v.status_str()[:400]


def check_object(d, exp, cfg, metas):
    """exp: list of logical path -> bytes, one per version; the object in d has to hold exactly that."""
    ok, msg = valid(d, cfg.get("lax", False))
    if not ok:
        raise Bad("the object is not valid: " + msg)
    files = {k: b for k, b in model.snapshot(d).items() if b is not None}
    inv = json.loads(files["inventory.json"])
    if inv["id"] != cfg["id"]:
        raise Bad("id is %r" % inv["id"])
    if inv["type"] != "https://ocfl.io/%s/spec/#inventory" % cfg["spec"]:
        raise Bad("inventory type is %r, specification version %s asked for" % (inv["type"], cfg["spec"]))
    if [f for f in files if f.startswith("0=")] != ["0=ocfl_object_" + cfg["spec"]]:
        raise Bad("declaration %r, specification version %s asked for" % ([f for f in files if f.startswith("0=")], cfg["spec"]))
    if inv["digestAlgorithm"] != cfg["alg"]:
        raise Bad("digest algorithm is %r" % inv["digestAlgorithm"])
    vd = sorted(inv["versions"], key=lambda v: int(v[1:]))
    if len(vd) != len(exp):
        raise Bad("versions are %r, expected %d" % (vd, len(exp)))
    for v, e, m in zip(vd, exp, metas):
        got = resolve(files, v, inv)
        if got != e:
            raise Bad("%s holds %r, expected %r" % (v, sorted(got.items())[:6], sorted(e.items())[:6]))
        if m is not False:
            why = meta_ok(inv["versions"][v], m)
            if why:
                raise Bad("%s: %s" % (v, why))
    if cfg.get("cd") is not None and inv.get("contentDirectory", "content") != cfg["cd"]:
        raise Bad("content directory is %r" % inv.get("contentDirectory"))


def guard(w, inp, f):
    w.case(json.dumps(inp, sort_keys=True, default=repr))
    d = w.mkdir()
    try:
        f(w, d, inp)
    except Bad as e:
        w.fail(str(e)[:700], inp)
    except Exception as e:
        if type(e).__name__ == "Stop":
            raise
        import traceback
        w.fail("raised %r %s" % (e, traceback.format_exc()[-300:]), inp)
    finally:
        w.rmdir(d)


def hx(files):
    return {k: v.hex() for k, v in files.items()}


def unhx(files):
    return {k: bytes.fromhex(v) for k, v in files.items()}


def gen_settings(rng):
    return {"id": rng.choice(["http://example.org/a", "x:y", "é", "a/b", "urn:uuid:1"]), "alg": rng.choice(["sha512", "sha512", "sha256"]), "cd": rng.choice(["content", "content", "data", "c d", "v1", "a%b"]),
            "spec": rng.choice(["1.1", "1.1", "1.0"]), "dedupe": rng.random() < 0.6, "delta": rng.random() < 0.6, "norm": rng.choice(["uri", "uri", "uri", None, "md5"]),
            "fixity": rng.choice([None, None, ["md5"], ["sha1", "md5"]])}


def new_object(s, **kw):
    from ocfl.object import Object
    return Object(identifier=s["id"], content_directory=s["cd"], digest_algorithm=s["alg"], content_path_normalization=s["norm"], spec_version=s["spec"],
                  forward_delta=s["delta"], dedupe=s["dedupe"], fixity=s["fixity"], lax_digests=s.get("lax", False), **kw)


def do_create(w, d, inp):
    s = inp["settings"]
    src = unhx(inp["src"])
    model.write(d + "/src", src)
    o = new_object(s)
    o.create(d + "/src", metadata=meta_obj(inp["meta"]), objdir=d + "/obj")
    check_object(d + "/obj", [src], s, [inp["meta"]])
    if model.snapshot(d + "/src") != {**src, **{k: None for k, v in model.snapshot(d + "/src").items() if v is None}}:
        raise Bad("the source directory changed")


def do_build(w, d, inp):
    s = inp["settings"]
    srcs = [unhx(x) for x in inp["srcs"]]
    for n, x in enumerate(srcs, 1):
        model.write(d + "/src/" + "v" + str(n).rjust(inp["width"], "0"), x)
    os.makedirs(d + "/src", exist_ok=True)
    for x in inp["extra"]:
        model.write(d + "/src", {x: b"ignored"})
    metas = inp["metas"]
    o = new_object(s)
    o.build(d + "/src", versions_metadata={i + 1: meta_obj(m) for i, m in enumerate(metas) if m is not None} if inp["with_meta"] else None, objdir=d + "/obj")
    check_object(d + "/obj", srcs, s, metas if inp["with_meta"] else [None] * len(srcs))


def do_update(w, d, inp):
    """C07 and C08"""
    files = unhx(inp["files"])
    model.write(d + "/obj", files, inp["dirs"])
    s = inp["settings"]
    inv0 = json.loads(files["inventory.json"])
    vd = sorted(inv0["versions"], key=lambda v: int(v[1:]))
    olds = [resolve(files, v) for v in vd] if inp["valid"] else []
    width = len(vd[-1]) - 1 if vd[0][1] == "0" else 0
    new = "v" + str(len(vd) + 1).rjust(width, "0")
    src = unhx(inp["src"]) if inp["src"] is not None else None
    if src is not None:
        model.write(d + "/src", src)
    before = model.snapshot(d + "/obj")
    from ocfl.object import Object
    o = Object(digest_algorithm=s["alg"], content_path_normalization=s["norm"], forward_delta=s["delta"], dedupe=s["dedupe"], fixity=s["fixity"])
    err = None
    try:
        o.add_version_with_content(objdir=d + "/obj", srcdir=d + "/src" if src is not None else None, metadata=meta_obj(inp["meta"]), **({"abort_if_no_difference": True} if inp["abort"] else {}))
    except Exception as e:
        err = e
    after = model.snapshot(d + "/obj")
    if not inp["valid"]:
        if err is None:
            raise Bad("updating an object that is not valid was not refused")
        if after != before:
            raise Bad("a refused update changed the object")
        return
    if width and not new.startswith("v0"):
        if err is None:
            raise Bad("no version name left but the update was not refused")
        if after != before:
            raise Bad("a refused update changed the object")
        return
    if err is not None:
        raise err
    exp = src if src is not None else olds[-1]
    if inp["abort"] and exp == olds[-1] and s["alg"] == inv0["digestAlgorithm"]:
        if after != before:
            raise Bad("nothing to add, but the object changed")
        return
    if new not in after and inp["abort"]:
        if exp != olds[-1] or after != before:
            raise Bad("no version added although the content differs")
        return
    for v in vd:
        b0 = {k: b for k, b in before.items() if k.startswith(v + "/")}
        b1 = {k: b for k, b in after.items() if k.startswith(v + "/")}
        if b0 != b1:
            raise Bad("files below %s changed: %r" % (v, sorted(k for k in set(b0) | set(b1) if b0.get(k) != b1.get(k))[:5]))
    inv = json.loads(after["inventory.json"])
    if inv["head"] != new or set(inv["versions"]) != set(vd) | {new}:
        raise Bad("new head is %r, expected %r; versions %r" % (inv["head"], new, sorted(inv["versions"])))
    fs = {k: b for k, b in after.items() if b is not None}
    for v, old in zip(vd, olds):
        if resolve(fs, v, inv) != old:
            raise Bad("%s resolves to other content after the update" % v)
        m0 = {k: x for k, x in inv0["versions"][v].items() if k != "state"}
        m1 = {k: x for k, x in inv["versions"][v].items() if k != "state"}
        if m0 != m1:
            raise Bad("metadata of %s changed" % v)
    cfg = {"id": inv0["id"], "spec": inp["spec"], "alg": s["alg"] or inv0["digestAlgorithm"], "cd": inv0.get("contentDirectory", "content")}
    check_object(d + "/obj", olds + [exp], cfg, [False] * len(vd) + [inp["meta"]])


def do_edit(w, d, inp):
    """start_new_version, edits, write_new_version"""
    files = unhx(inp["files"])
    model.write(d + "/obj", files, inp["dirs"])
    src = unhx(inp["src"])
    model.write(d + "/src", src)
    s = inp["settings"]
    inv0 = json.loads(files["inventory.json"])
    vd = sorted(inv0["versions"], key=lambda v: int(v[1:]))
    olds = [resolve(files, v) for v in vd]
    before = model.snapshot(d + "/obj")
    from ocfl.object import Object
    kw = {"forward_delta": s["delta"], "dedupe": s["dedupe"], "content_path_normalization": s["norm"]}
    width = len(vd[-1]) - 1 if vd[0][1] == "0" else 0
    if width and not ("v" + str(len(vd) + 1).rjust(width, "0")).startswith("v0"):
        try:
            Object(**kw).start_new_version(objdir=d + "/obj", srcdir=d + "/src")
        except Exception:
            if model.snapshot(d + "/obj") != before:
                raise Bad("a refused update changed the object")
            return
        raise Bad("no version name left but the update was not refused")
    if inp["open"]:
        o = Object(path=d + "/obj", **kw)
        nv = o.start_new_version(srcdir=d + "/src", digest_algorithm=s["alg"], fixity=s["fixity"], metadata=meta_obj(inp["meta"]), carry_content_forward=inp["carry"])
    else:
        o = Object(**kw)
        nv = o.start_new_version(objdir=d + "/obj", srcdir=d + "/src", digest_algorithm=s["alg"], fixity=s["fixity"], metadata=meta_obj(inp["meta"]), carry_content_forward=inp["carry"])
    exp = dict(olds[-1]) if inp["carry"] else {}
    for op in inp["ops"]:
        try:
            if op[0] == "add":
                nv.add(op[1], op[2])
                exp[op[2]] = src[op[1]]
            elif op[0] == "delete":
                nv.delete(op[1])
                del exp[op[1]]
            else:
                nv.rename(op[1], op[2])
                exp[op[2]] = exp.pop(op[1])
        except KeyError:
            raise Bad("edit %r of nothing went through" % (op,))
        except Exception:
            pass
    if not model.paths_ok(list(exp)):
        return
    if model.snapshot(d + "/obj") != before:
        raise Bad("the object changed before the new version is written")
    o.write_new_version(nv)
    after = model.snapshot(d + "/obj")
    for v in vd:
        if {k: b for k, b in before.items() if k.startswith(v + "/")} != {k: b for k, b in after.items() if k.startswith(v + "/")}:
            raise Bad("files below %s changed" % v)
    cfg = {"id": inv0["id"], "spec": inp["spec"], "alg": s["alg"] or inv0["digestAlgorithm"], "cd": inv0.get("contentDirectory", "content")}
    check_object(d + "/obj", olds + [exp], cfg, [False] * len(vd) + [inp["meta"]])


def gen_obj_input(rng, **kw):
    kw.setdefault("nv", rng.choice([1, 1, 2, 2, 3, 9, 10]))
    o = model.gen_object(rng, **kw)
    return o, {"files": hx(o.files), "dirs": sorted(o.dirs), "spec": o.spec}


def break_object(rng, o, files):
    """Some damage that makes the object invalid whatever is checked; returns what."""
    f = dict(files)
    r = rng.randrange(6)
    if r == 0 and o.content:
        del f[rng.choice(sorted(o.content))]
        return f, "content file missing"
    if r == 1:
        f[o.vdirs[0] + "/" + o.cd + "/zzextra"] = b"x"
        return f, "extra content file"
    if r == 2:
        f["extra"] = b""
        return f, "extra file in the root"
    if r == 3:
        del f["0=ocfl_object_" + o.spec]
        return f, "no declaration"
    if r == 4:
        inv = json.loads(f["inventory.json"])
        inv["head"] = "v99"
        f["inventory.json"] = json.dumps(inv).encode()
        return f, "bad head"
    del f["inventory.json." + o.alg]
    return f, "no sidecar"


def gen_update(rng, broken=False):
    o, inp = gen_obj_input(rng, mixed_alg=rng.random() < 0.3)
    s = gen_settings(rng)
    if rng.random() < 0.4:
        s["alg"] = o.alg
    if rng.random() < 0.2:
        s["alg"] = None
    s["fixity"] = rng.choice([None, None, [], o.fixalgs, o.fixalgs[:1], ["md5"]])
    pool = POOL + sorted(o.content.values())
    src = gen_src(rng, pool)
    if rng.random() < 0.3:
        src = dict(o.states[-1])
        src = {k: v for k, v in src.items() if len(k.encode()) < 200}
        if rng.random() < 0.6 and src:
            k = rng.choice(sorted(src))
            if rng.random() < 0.5:
                del src[k]
            else:
                src[k] = rng.choice(pool)
    inp.update({"kind": "update", "settings": s, "src": None if rng.random() < 0.2 else hx(src), "meta": rng.choice([None, gen_meta(rng), gen_meta(rng)]), "abort": rng.random() < 0.2, "valid": True})
    if s["fixity"] is not None and set(s["fixity"]) - set(o.inv.get("fixity", {})):
        pass
    if broken:
        f, what = break_object(rng, o, o.files)
        inp["files"], inp["valid"], inp["what"] = hx(f), False, what
    return inp


def gen_edit(rng):
    o, inp = gen_obj_input(rng, mixed_alg=rng.random() < 0.3, width=rng.choice([0, 0, 3, 5]))
    s = gen_settings(rng)
    s["alg"] = rng.choice([None, o.alg, "sha512", "sha256"])
    s["fixity"] = None
    pool = POOL + sorted(o.content.values())
    src = gen_src(rng, pool, rng.choice([2, 4]))
    known = sorted(o.states[-1])
    logical = known[:4] + sorted(src)[:3] + ["x", "y/z"]
    ops = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        r = rng.random()
        if r < 0.45:
            ops.append(["add", rng.choice(sorted(src)), rng.choice(logical)])
        elif r < 0.75:
            ops.append(["delete", rng.choice(logical)])
        else:
            ops.append(["rename", rng.choice(logical), rng.choice(logical)])
    inp.update({"kind": "edit", "settings": s, "src": hx(src), "meta": rng.choice([None, gen_meta(rng)]), "carry": rng.random() < 0.8, "open": rng.random() < 0.5, "ops": ops})
    return inp


def gen_create(rng):
    s = gen_settings(rng)
    if rng.random() < 0.1:
        s["lax"], s["alg"] = True, rng.choice(["md5", "sha1", "blake2b-512", "blake2b-160"])
    return {"kind": "create", "settings": s, "src": hx(gen_src(rng)), "meta": rng.choice([None, gen_meta(rng), gen_meta(rng)])}


def gen_build(rng):
    s = gen_settings(rng)
    n = rng.choice([1, 2, 2, 3, 4, 10])
    srcs = []
    for i in range(n):
        x = gen_src(rng) if not srcs or rng.random() < 0.5 else dict(srcs[-1])
        if srcs and rng.random() < 0.7:
            p = rng.choice(SRC)
            if p in x:
                del x[p]
            elif model.add_path(x, p):
                x[p] = rng.choice(POOL)
        srcs.append(x)
    return {"kind": "build", "settings": s, "srcs": [hx(x) for x in srcs], "width": rng.choice([0, 0, 0, 2, 3, 5]), "extra": rng.choice([[], ["README"], ["x/y"], ["v0/a"], ["vx/a", "w1/b"]]),
            "metas": [rng.choice([None, gen_meta(rng)]) for _ in srcs], "with_meta": rng.random() < 0.7}


DO = {"create": do_create, "build": do_build, "update": do_update, "edit": do_edit}


def replay(w, inp):
    guard(w, inp, DO[inp["kind"]])
