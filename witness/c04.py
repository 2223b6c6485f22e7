"""C04: content validation of objects."""
import copy
import json

import model

RULE = "generated conforming objects (1-11 versions, mixed algorithms, fixity, odd names, upper case digests); each gets one change of known effect on content files, fixity blocks, sidecars, inventories of any version, or directories; with and without digest checking"


def validate(w, files, dirs, check=True):
    from ocfl.validator import Validator
    d = w.mkdir()
    try:
        model.write(d, files, dirs)
        v = Validator(check_digests=check)
        used = len(files) % 3 == 0
        if used:        # the validator has already seen another object, which was bad
            v.validate_object(d + "-missing")
        return v.validate_object(d), ("after another object: " if used else "") + v.status_str(), v.log.num_errors
    finally:
        w.rmdir(d)


def judge(w, files, dirs, check, expect, what):
    w.case((what, check, repr(sorted(files.items()))[:6000]))
    inp = {"files": model.enc(files), "dirs": sorted(dirs), "check": check, "expect": expect, "what": what}
    try:
        r, msg, n = validate(w, files, dirs, check)
    except Exception as e:
        if type(e).__name__ == "Stop":
            raise
        w.fail("validate_object raised %r (%s)" % (e, what), inp)
        return
    w.check(r is expect, "validate_object(check_digests=%s) gave %r, expected %r: %s %s" % (check, r, expect, what, msg[:300]), inp)


def flip(rng, b):
    if not b:
        return b"x"
    r = rng.random()
    if r < 0.2:
        return b[:-1]
    if r < 0.4:
        return b + rng.choice([b"\n", b"\x00", b" "])
    i = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def setinv(o, files, i, inv, indent=None):
    """Write version i's inventory (root and head copy for the last) with correct sidecars."""
    t = json.dumps(inv, indent=indent).encode()
    a = inv["digestAlgorithm"]
    places = [o.vdirs[i] + "/"] if o.vdirs[i] + "/inventory.json" in files else []
    if i == len(o.vdirs) - 1:
        places.append("")
    for p in places:
        files[p + "inventory.json"] = t
        files[p + "inventory.json." + a] = model.digest(a, t).encode() + b" inventory.json\n"
    return bool(places)


def other(rng, d):
    """A different digest of the same form."""
    i = rng.randrange(len(d))
    return d[:i] + ("0" if d[i] != "0" else "1") + d[i + 1:]


def changes(rng, o):
    """Yields (what, files, dirs, expected with digests, expected without)"""
    n = len(o.vdirs)
    allv = [i for i in range(n) if o.vdirs[i] + "/inventory.json" in o.files]
    F, D = lambda: dict(o.files), lambda: set(o.dirs)
    yield "unchanged", F(), D(), True, True
    names = sorted(o.content)
    if names:
        p = rng.choice(names)
        f = F()
        f[p] = flip(rng, f[p])
        yield "content of %s changed" % p, f, D(), False, True
        f = F()
        del f[p]
        dd = D()
        dd.add(p.split("/")[0])
        yield "content file %s missing" % p, f, dd, False, False
        f = F()
        q = p + rng.choice(["x", "__2", ".bak", " "])
        if q not in f and not any(k.startswith(q + "/") for k in f):
            f[q] = f.pop(p)
            yield "content file %s renamed to %s" % (p, q), f, D(), False, False
            f = F()
            f[q] = f[p]
            yield "copy of a content file at %s" % q, f, D(), False, False
        same = [(a, b) for a in names for b in names if a < b and o.content[a] != o.content[b]]
        if same:
            a, b = rng.choice(same)
            f = F()
            f[a], f[b] = f[b], f[a]
            yield "content of %s and %s swapped" % (a, b), f, D(), False, True
    v = rng.choice(o.vdirs)
    x = rng.choice(["extra", "d/extra", "inventory.json", "d/e/f/inventory.json.sha512", ".h", "%41", "content/x"])
    q = v + "/" + o.cd + "/" + x
    if q not in o.content and not any(k.startswith(q + "/") or q.startswith(k + "/") for k in o.files):
        f = F()
        f[q] = rng.choice([b"", b"a", b"x"])
        yield "extra content file %s" % q, f, D(), False, False
    for q in (rng.choice(["extra", "inventory.json.md5", "inventory.json.sha1", "inventory", "0=ocfl_object_9.9", "0=ocfl_object_2.0x", "README", "v1x", "ocfl_layout.json", "1=x", ".x"]),
              v + "/" + rng.choice(["extra", "inventory.json.md5", "inventory.json.sha1", "inventory", "0=ocfl_object_1.0", "inventory.json.bak", "x y", "." + "x"])):
        if q in o.files or q == v + "/" + o.cd or any(k.startswith(q + "/") for k in o.files) or q in o.dirs:
            continue
        f = F()
        f[q] = b"" if "=" not in q else q.split("=")[1].encode() + b"\n"
        yield "unexpected file %s" % q, f, D(), False, False
    oth = "sha256" if o.alg == "sha512" else "sha512"
    q = "inventory.json." + oth
    if q not in o.files:
        f = F()
        f[q] = model.digest(oth, f["inventory.json"]).encode() + b" inventory.json\n"
        yield "second sidecar in the root", f, D(), False, False
    # directories
    f, dd = F(), D()
    dn = rng.choice(["tmp", "x"])
    if dn != o.cd:
        dd.add(v + "/" + dn)
        if rng.random() < 0.5:
            f[v + "/" + dn + "/file"] = b"x"
        yield "other directory in a version directory", f, dd, True, True
    f, dd = F(), D()
    dd.add("logs")
    f["logs/x/y"] = b"1"
    dd.add("extensions/0005-mutable-head")
    yield "logs and extensions directories", f, dd, True, True
    f = F()
    f["extensions/f"] = b""
    yield "file in extensions directory", f, D(), False, False
    # sidecars
    for pre in [""] + [o.vdirs[i] + "/" for i in allv]:
        a = o.alg if pre == "" else o.algs[o.vdirs.index(pre[:-1])]
        s = pre + "inventory.json." + a
        if s not in o.files or rng.random() > 0.5:
            continue
        d, rest = o.files[s].split(None, 1)
        f = F()
        f[s] = other(rng, d.decode()).encode() + b" inventory.json\n"
        yield "sidecar %s has another digest" % s, f, D(), False, True
        f = F()
        f[s] = d[:-1] + b" inventory.json\n"
        yield "sidecar %s has a short digest" % s, f, D(), False, True
        f = F()
        f[s] = rng.choice([b"", d, d + b" \n", d + b" inventory.jsn\n", d + b" x inventory.json\n", b" inventory.json\n", d + b"inventory.json", d + b" ./inventory.json\n"])
        yield "sidecar %s has the wrong form" % s, f, D(), False, None
        f = F()
        del f[s]
        yield "sidecar %s missing" % s, f, D(), False, False
        f = F()
        f[s] = d.swapcase() + rng.choice([b"\t", b"  ", b" \t "]) + b"inventory.json" + rng.choice([b"", b"\n", b"  \n"])
        yield "sidecar %s in other case and spacing" % s, f, D(), True, True
        if pre != "" and pre[:-1] != o.vdirs[-1]:
            f, dd = F(), D()
            del f[s], f[pre + "inventory.json"]
            if not any(k.startswith(pre) for k in f):
                dd.add(pre[:-1])
            yield "no inventory in %s" % pre, f, dd, True, True
    # head copy differs
    h = o.vdirs[-1] + "/inventory.json"
    if h in o.files:
        f = F()
        t = f[h] + rng.choice([b" ", b"\n"])
        if rng.random() < 0.5:
            t = flip(rng, f[h])
        f[h] = t
        f[h + "." + o.alg] = model.digest(o.alg, t).encode() + b" inventory.json\n"
        yield "head inventory not identical to the root's", f, D(), False, False
    # fixity
    for i in ([n - 1] + ([rng.choice(allv)] if allv else [])):
        if i == n - 1 or i in allv:
            inv = copy.deepcopy(o.invs[i])
            there = [c for c in o.content if o.vdirs.index(c.split("/")[0]) <= i]
            if not there:
                continue
            a = rng.choice(["md5", "sha1", "sha256", "sha512", "blake2b-512", "blake2b-384", "blake2b-256", "blake2b-160"])
            c = rng.choice(there)
            fx = inv.setdefault("fixity", {})
            fx[a] = {model.digest(a, o.content[c]): [c]}
            f = F()
            if setinv(o, f, i, inv):
                yield "right %s fixity of %s in %s" % (a, c, o.vdirs[i]), f, D(), True, True
            d = other(rng, model.digest(a, o.content[c]))
            blk = {d: [c]}
            if rng.random() < 0.5:
                blk = {model.digest(a, o.content[c]): [c], d: [c]}
                if rng.random() < 0.5:
                    blk = dict(reversed(list(blk.items())))
            fx[a] = blk
            f = F()
            if setinv(o, f, i, inv):
                yield "wrong %s fixity of %s in %s" % (a, c, o.vdirs[i]), f, D(), False, True
    # manifest digest of a prior version's inventory (or of the root) does not fit the content
    for i in ([n - 1] + ([rng.choice(allv)] if allv else [])):
        if i == n - 1 or i in allv:
            inv = copy.deepcopy(o.invs[i])
            ds = [d for d in inv["manifest"] if inv["manifest"][d]]
            if not ds:
                continue
            d = rng.choice(ds)
            nd = other(rng, d.lower())
            if i == n - 1 and allv and allv[:1] != [n - 1] and any(o.algs[j] == o.alg for j in allv if j != i):
                pass
            inv["manifest"] = {(nd if k == d else k): x for k, x in inv["manifest"].items()}
            for b in inv["versions"].values():
                b["state"] = {(nd if k == d else k): x for k, x in b["state"].items()}
            f = F()
            if setinv(o, f, i, inv):
                # with the same algorithm elsewhere the states disagree too
                off = True if (i == n - 1 and not [j for j in allv if j != i]) or (i != n - 1 and o.algs[i] != o.alg) else None
                yield "manifest digest in %s's inventory does not fit the content" % o.vdirs[i], f, D(), False, off
    # the manifest lacks a file that is there
    inv = copy.deepcopy(o.invs[-1])
    for d, fl in inv["manifest"].items():
        if len(fl) > 1:
            fl.pop(rng.randrange(len(fl)))
            inv.pop("fixity", None)
            f = F()
            for j in range(n - 1):          # earlier inventories away, so that only the content tells
                for k in [k for k in f if k.startswith(o.vdirs[j] + "/inventory.json")]:
                    del f[k]
            dd = D()
            for v2 in o.vdirs:
                if not any(k.startswith(v2 + "/") for k in f):
                    dd.add(v2)
            setinv(o, f, n - 1, inv)
            yield "a duplicate content file not in the manifest", f, dd, False, False
            break


def run(w):
    rng = w.rng
    k = 0
    while w.more():
        k += 1
        o = model.gen_object(rng, nv=rng.choice([1, 1, 2, 2, 3, 3, 4, 11]), mixed_alg=rng.random() < 0.6)
        for what, files, dirs, on, off in changes(rng, o):
            if on is not None:
                judge(w, files, dirs, True, on, what)
            if off is not None and rng.random() < 0.4:
                judge(w, files, dirs, False, off, what)
            if not w.more():
                break


def replay(w, i):
    judge(w, model.dec(i["files"]), i["dirs"], i["check"], i["expect"], i["what"])
