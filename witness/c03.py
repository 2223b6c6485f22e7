"""C03: totality."""
import json
import os

import invcheck
import model

RULE = "junk values and 1-5 random edits of conforming inventories, lax/strict, forced versions; objects whose inventory files are edited or replaced by arbitrary bytes"
BYTES = [b"", b"{", b"null", b"[]", b"1", b"\"x\"", b"\xff\xfe", b"{\"a\":", b"\x00", b"NaN", b"[" * 3000, b"[" * 200000, b"{}", b"\xef\xbb\xbf{}", b"{\"id\": \"\xed\xa0\x80\"}", b"true", b"1e999", b"9" * 5000]


def check_obj(w, files, dirs, expect_bad=True):
    from ocfl.validator import Validator
    w.case(("obj", repr(sorted(files.items()))[:3000]))
    d = w.mkdir()
    inp = {"files": model.enc(files), "dirs": sorted(dirs)}
    try:
        model.write(d, files, dirs)
        v = Validator()
        try:
            r = v.validate_object(d)
        except Exception as e:
            w.fail("Validator.validate_object raised %r" % (e,), inp)
            return
        w.check(type(r) is bool and r == (v.log.num_errors == 0), "validate_object gave %r with %d errors" % (r, v.log.num_errors), inp)
        if expect_bad:
            w.check(r is False, "an object with a malformed inventory is valid", inp)
    finally:
        w.rmdir(d)


def run(w):
    rng = w.rng
    full = w.deadline
    for k in range(100000):
        if w.time_share(0.35):
            break
        o = model.gen_object(rng, nv=rng.choice([1, 2, 3]), all_inv=True)
        inv = [f for f in o.files if f.endswith("inventory.json")]
        f = rng.choice(inv)
        files = dict(o.files)
        bad = False
        if rng.random() < 0.5:
            files[f] = rng.choice(BYTES)
            bad = f == "inventory.json" or True
        else:
            i = o.vdirs.index(f.split("/")[0]) if "/" in f else len(o.vdirs) - 1
            m = o.invs[i]
            for _ in range(rng.choice([1, 1, 2, 3])):
                if isinstance(m, (dict, list)):
                    m = model.mutate(rng, m)
            try:
                t = json.dumps(m).encode()
            except (ValueError, UnicodeError):
                continue
            files[f] = t
            a = o.algs[i]
            files[f + "." + a] = model.digest(a, t).encode() + b" inventory.json\n"
            try:
                bad = not model.inv_ok(json.loads(t))
            except (ValueError, TypeError, RecursionError):
                bad = False
            if f.startswith(o.vdirs[-1] + "/"):
                bad = True if t != o.invtext[-1] else False
        check_obj(w, files, o.dirs, bad)
    w.deadline = full
    invcheck.run(w)


def replay(w, i):
    if "files" in i:
        check_obj(w, model.dec(i["files"]), i["dirs"], False)
    else:
        invcheck.replay(w, i)
