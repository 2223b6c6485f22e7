"""C16: tree walk, copy and comparison."""
import os
import zipfile

from common import source_constants, word

RULE = "random trees (depth to 5, odd names, empty directories), start directories with and without slashes, pruning, file sizes around every buffer boundary in the source, one-byte differences at boundaries"
NAMES = ["a", "b", "c.txt", "a b", "é", "%41", "a%2Fb", "-x", ".h", "...", "a+b", "a#b", "a?b", "a*", "[a]", "aa", "A", "a:b", "a\\b", "~", "v1", "content", "a=b", "a\nb", "x" * 100, "a ", " a", "0", "*", "?", "[!a]", "{x}"]


def fsys(d):
    from fsspec.implementations.dirfs import DirFileSystem
    from fsspec.implementations.local import LocalFileSystem
    return DirFileSystem(d, LocalFileSystem())


def gen_tree(rng, depth=0):
    """dict name -> bytes | dict"""
    t = {}
    for _ in range(rng.choice([0, 1, 2, 3, 4]) if depth else rng.choice([1, 2, 3, 5])):
        n = rng.choice(NAMES)
        if depth < 5 and rng.random() < 0.45:
            t[n] = gen_tree(rng, depth + 1)
        else:
            t[n] = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5])))
    return t


def put(d, t):
    os.makedirs(d, exist_ok=True)
    for n, x in t.items():
        p = os.path.join(d, n)
        if isinstance(x, dict):
            put(p, x)
        else:
            with open(p, "wb") as fh:
                fh.write(x)


def get(d):
    out = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p):
            out[n] = get(p)
        else:
            with open(p, "rb") as fh:
                out[n] = fh.read()
    return out


def sub(t, parts):
    for p in parts:
        t = t[p]
    return t


def files_of(t, pre=""):
    out = {}
    for n, x in t.items():
        if isinstance(x, dict):
            out.update(files_of(x, pre + n + "/"))
        else:
            out[pre + n] = x
    return out


def dirs_of(t, pre=""):
    out = [pre]
    for n, x in t.items():
        if isinstance(x, dict):
            out += dirs_of(x, pre + n + "/")
    return out


def enc(t):
    return {n: enc(x) if isinstance(x, dict) else x.hex() for n, x in t.items()}


def dec(t):
    return {n: dec(x) if isinstance(x, dict) else bytes.fromhex(x) for n, x in t.items()}


def check_walk(w, t, start, slash, prune):
    """start: list of names; slash: spelling; prune: set of paths not to descend into"""
    from ocfl.fsw import fsw_walk, fsw_walk_files, fsw_listdir_names
    inp = {"walk": enc(t), "start": start, "slash": slash, "prune": sorted(prune)}
    w.case(("walk", repr(t), tuple(start), slash, tuple(sorted(prune))))
    d = w.mkdir()
    put(d, t)
    fs = fsys(d)
    s = "/".join(start)
    s = {0: s, 1: "/" + s, 2: s}[slash] if s else ("/" if slash == 1 else "")
    try:
        expd, expf = {}, files_of(sub(t, start))

        def go(x, pre):
            expd[pre] = (sorted(n for n in x if isinstance(x[n], dict)), sorted(n for n in x if not isinstance(x[n], dict)))
            for n in x:
                if isinstance(x[n], dict) and (pre + "/" + n).lstrip("/") not in prune:
                    go(x[n], pre + "/" + n)
        base = "".join("/" + x for x in start)
        go(sub(t, start), base)
        seen = []
        got = {}
        for dp, ds, fl in (fsw_walk(fs, s) if s or slash == 0 and start else fsw_walk(fs)):
            k = "/" + dp.strip("/") if dp.strip("/") else ""
            seen.append(k)
            got[k] = (sorted(ds), sorted(fl))
            if prune:
                keep = [n for n in ds if (k + "/" + n).lstrip("/") not in prune]
                ds[:] = keep
        w.check(len(seen) == len(set(seen)), "fsw_walk from %r visits a directory twice: %r" % (s, sorted(seen)[:9]), inp)
        w.check(got == expd, "fsw_walk from %r gave %r, not %r" % (s, sorted(got.items())[:5], sorted(expd.items())[:5]), inp)
        if not prune:
            fl = fsw_walk_files(fs, s)
            w.check(sorted(fl) == sorted(expf), "fsw_walk_files from %r gave %r, not %r" % (s, sorted(fl)[:6], sorted(expf)[:6]), inp)
            names = fsw_listdir_names(fs, s)
            w.check(sorted(names) == sorted(sub(t, start)), "fsw_listdir_names(%r) gave %r" % (s, sorted(names)), inp)
    except Exception as e:
        if type(e).__name__ == "Stop":
            raise
        w.fail("walk from %r raised %r" % (s, e), inp)
    finally:
        w.rmdir(d)


def check_copy(w, t, start, dst, pre):
    """pre: what is at the destination before: None, 'dir', 'file', 'other' (something else beside it)"""
    from ocfl.fsw import fsw_copydir, FswException
    inp = {"copy": enc(t), "start": start, "dst": dst, "pre": pre}
    w.case(("copy", repr(t), tuple(start), dst, pre))
    d, e = w.mkdir(), w.mkdir()
    put(d, t)
    target = os.path.join(e, dst)
    with open(os.path.join(e, "keep"), "wb") as fh:
        fh.write(b"keep")
    if pre == "dir":
        os.makedirs(target)
        open(os.path.join(target, "x"), "w").close()
    elif pre == "empty":
        os.makedirs(target)
    elif pre == "file":
        os.makedirs(os.path.dirname(target), exist_ok=True)
        open(target, "w").close()
    before = get(e)
    try:
        try:
            fsw_copydir(fsys(d), "/".join(start), fsys(e), dst)
            ok = True
        except FswException:
            ok = False
        except Exception as x:
            w.fail("fsw_copydir to %r raised %r" % (dst, x), inp)
            return
        w.check(ok == (pre is None), "fsw_copydir to %s destination %s" % (pre or "new", "succeeded" if ok else "was refused"), inp)
        w.check(get(d) == t, "fsw_copydir changed its source", inp)
        after = get(e)
        if not ok or pre is not None:
            w.check(after == before, "refused fsw_copydir changed the destination", inp)
        else:
            exp = {dst + "/" + k: v for k, v in files_of(sub(t, start)).items()}
            exp["keep"] = b"keep"
            w.check(files_of(after) == exp and os.path.isdir(target), "fsw_copydir gave %r, not %r" % (sorted(files_of(after).items())[:5], sorted(exp.items())[:5]), inp)
    finally:
        w.rmdir(d)
        w.rmdir(e)


def data(n, salt=0):
    unit = bytes((i * 7 + salt) % 251 for i in range(251))
    return (unit * (n // 251 + 1))[:n]


def check_file(w, n, salt):
    from ocfl.fsw import fsw_copyfile
    inp = {"filesize": n, "salt": salt}
    w.case(("copyfile", n, salt))
    d = w.mkdir()
    with open(d + "/a", "wb") as fh:
        fh.write(data(n, salt))
    if salt % 2:
        with open(d + "/b", "wb") as fh:
            fh.write(b"old" * (n // 2 + 5))
    try:
        fsw_copyfile(fsys(d), "a", fsys(d), "b")
        with open(d + "/b", "rb") as fh:
            b = fh.read()
        w.check(b == data(n, salt), "fsw_copyfile of %d bytes gave %d bytes%s" % (n, len(b), "" if len(b) != n else " that differ"), inp)
    except Exception as e:
        if type(e).__name__ == "Stop":
            raise
        w.fail("fsw_copyfile of %d bytes raised %r" % (n, e), inp)
    finally:
        w.rmdir(d)


def check_same(w, n, m, pos, same_name=False):
    """files of n and m bytes; byte at pos differs when pos is not None"""
    from ocfl.fsw import fsw_files_identical
    inp = {"n": n, "m": m, "pos": pos, "same_name": same_name}
    w.case(("same", n, m, pos, same_name))
    d = w.mkdir()
    a, b = bytearray(data(n)), bytearray(data(m))
    if pos is not None and pos < len(b):
        b[pos] ^= 1
    with open(d + "/a", "wb") as fh:
        fh.write(a)
    os.mkdir(d + "/s")
    f2 = "a" if same_name else "s/b"
    if not same_name:
        with open(d + "/s/b", "wb") as fh:
            fh.write(b)
    try:
        got = fsw_files_identical(fsys(d), "a", f2)
        w.check(got is (same_name or a == b), "fsw_files_identical of %d and %d bytes, differing at %r: %r" % (n, m, pos, got), inp)
        got = fsw_files_identical(fsys(d), f2, "a")
        w.check(got is (same_name or a == b), "fsw_files_identical of %d and %d bytes (swapped), differing at %r: %r" % (n, m, pos, got), inp)
    except Exception as e:
        if type(e).__name__ == "Stop":
            raise
        w.fail("fsw_files_identical raised %r" % (e,), inp)
    finally:
        w.rmdir(d)


def check_relpath(w, path, start):
    from ocfl.fsw import _fsw_relpath
    inp = {"path": path, "rel": start}
    w.case(("rel", path, start))
    p, s = path.lstrip("/"), start.lstrip("/")
    if s == "":
        exp = p
    else:
        a, b = p.split("/"), s.split("/")
        exp = "/".join(a[len(b):]) if a[:len(b)] == b else None
    try:
        got = _fsw_relpath(path, start)
    except ValueError:
        got = None
    except Exception as e:
        w.fail("_fsw_relpath(%r, %r) raised %r" % (path, start, e), inp)
        return
    w.check(got == exp, "_fsw_relpath(%r, %r) gave %r, not %r" % (path, start, got, exp), inp)


def run(w):
    rng = w.rng
    _, ints = source_constants(["fsw.py"])
    B = sorted({65536, 131072, 262144, 8192} | {i for i in ints if 64 < i < 600000} | {i * 1024 for i in ints if 1 < i < 600})
    sizes = sorted({0, 1, 2, 100} | {b + k for b in B for k in (-1, 0, 1)} | {2 * b + k for b in B for k in (-1, 0, 1)} | {b * 3 + 5 for b in B})
    for n in sizes:
        if w.time_share(0.25):
            break
        check_file(w, n, n % 7)
        check_file(w, n, n % 7 + 1)
    check_same(w, 5, 5, None, True)
    for n in sizes:
        if w.time_share(0.55):
            break
        check_same(w, n, n, None)
        check_same(w, n, n + 1, None)
        for pos in {0, n - 1, n // 2} | {b + k for b in B for k in (-1, 0) if b + k < n}:
            if 0 <= pos < n:
                check_same(w, n, n, pos)
    for n in (0, 1, 2, 3):
        for m in (0, 1, 2, 3):
            for pos in (None, 0, 1, 2):
                check_same(w, n, m, pos)
    for p in ("", "/", "a", "/a", "a/b", "/a/b", "//a/b", "ab/c", "a/bc", "a//b", "a/", "a/b/c", "b/a/b"):
        for s in ("", "/", "a", "/a", "a/b", "/a/b", "a/", "ab", "b", "//a"):
            check_relpath(w, p, s)
    k = 0
    while w.more() and k < 2500:
        k += 1
        t = gen_tree(rng)
        ds = dirs_of(t)
        st = rng.choice(ds).strip("/")
        st = st.split("/") if st else []
        cands = [x.strip("/") for x in ds if x]
        prune = set(rng.sample(cands, rng.randint(1, len(cands)))) if cands and rng.random() < 0.4 else set()
        check_walk(w, t, st, rng.choice([0, 1]), prune)
        st2 = rng.choice([x.strip("/") for x in ds]) if len(ds) else ""
        st2 = st2.split("/") if st2 else []
        if st2:
            check_copy(w, t, st2, rng.choice(["d", "p/q", "p/q/r", "a b"]), rng.choice([None, None, None, "dir", "empty", "file"]))
        else:
            check_copy(w, {"s": t}, ["s"], rng.choice(["d", "p/q", "é"]), rng.choice([None, None, None, "dir", "empty", "file"]))


def replay(w, i):
    if "walk" in i:
        check_walk(w, dec(i["walk"]), i["start"], i["slash"], set(i["prune"]))
    elif "copy" in i:
        check_copy(w, dec(i["copy"]), i["start"], i["dst"], i["pre"])
    elif "filesize" in i:
        check_file(w, i["filesize"], i["salt"])
    elif "rel" in i:
        check_relpath(w, i["path"], i["rel"])
    else:
        check_same(w, i["n"], i["m"], i["pos"], i["same_name"])


def hint(w, task, inputs):
    if "path" in inputs and "start" in inputs:
        check_relpath(w, inputs["path"], inputs["start"])
