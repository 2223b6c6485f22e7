"""C14: digests."""
import hashlib
import os
import re

from common import source_constants, text, word

RULE = "contents of 0..300 kB around every buffer boundary in the source, every algorithm, mutated names and digest texts"
FILE = {"sha512": lambda b: hashlib.sha512(b), "sha256": lambda b: hashlib.sha256(b), "sha1": lambda b: hashlib.sha1(b), "md5": lambda b: hashlib.md5(b),
        "blake2b-512": lambda b: hashlib.blake2b(b, digest_size=64), "blake2b-384": lambda b: hashlib.blake2b(b, digest_size=48),
        "blake2b-256": lambda b: hashlib.blake2b(b, digest_size=32), "blake2b-160": lambda b: hashlib.blake2b(b, digest_size=20)}
LEN = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32, "blake2b-512": 128, "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}
STRS = ("sha512", "sha256", "sha1", "md5")


def want_file(alg, b):
    if alg in FILE:
        return FILE[alg](b).hexdigest()
    if alg == "sha512-spec-ex":
        d = hashlib.sha512(b).hexdigest()
        return d[:15] + "..." + d[-3:]
    if alg == "sha256-spec-ex":
        d = hashlib.sha256(b).hexdigest()
        return d[:6] + "..." + d[-3:]
    return None


ENDS = [b"\0" * 9, b"\n", b"\r\n", b" \t", b"\x1a", b"\xef\xbb\xbf", b"\0"]    # the last: nothing else


def check_file(w, size, alg, salt):
    from ocfl.digest import file_digest
    b = (b"%d\0\xff\r\n" % salt + os.urandom(0)) * (size // 5 + 1)
    b = bytes((x + i // 65536) & 255 for i, x in enumerate(b[:size])) if size < 70000 else b[:size - 3] + b"end"
    if salt < 0:
        tail = ENDS[-salt - 1]
        b = (b + tail * (size // max(1, len(tail)) if salt == -len(ENDS) else 1))[-size:] if size else b""
    fn = "file.bin"
    if not hasattr(w, "fs"):
        from fsspec.implementations.dirfs import DirFileSystem
        from fsspec.implementations.local import LocalFileSystem
        w.fs = DirFileSystem(w.scratch, LocalFileSystem())
    with open(os.path.join(w.scratch, fn), "wb") as fh:
        fh.write(b)
    inp = {"size": size, "alg": alg, "salt": salt}
    w.case(("file", size, alg, salt))
    exp = want_file(alg, b)
    try:
        got = file_digest(fn, alg, fs=w.fs) if alg is not None else file_digest(fn, fs=w.fs)
        exp = exp if alg is not None else hashlib.sha512(b).hexdigest()
    except ValueError:
        got = None
    except Exception as e:
        w.fail("file_digest(%d bytes, %r) raised %r" % (size, alg, e), inp)
        return
    w.check(got == exp, "file_digest(%d bytes, %r) gave %r, not %r" % (size, alg, got, exp), inp)


def check_str(w, s, alg):
    from ocfl.digest import string_digest
    w.case(("str", s, alg))
    exp = FILE[alg](s.encode("utf-8")).hexdigest() if alg in STRS else None
    try:
        got = string_digest(s, alg)
    except ValueError:
        got = None
    except Exception as e:
        w.fail("string_digest(%r, %r) raised %r" % (s, alg, e), {"str": s, "alg": alg})
        return
    w.check(got == exp, "string_digest(%r, %r) gave %r, not %r" % (s, alg, got, exp), {"str": s, "alg": alg})


def check_regex(w, alg, s):
    from ocfl.digest import digest_regex
    w.case(("regex", alg, s))
    try:
        r = digest_regex(alg)
    except ValueError:
        w.check(alg not in LEN, "digest_regex(%r) refused" % alg, {"regex": alg, "s": s})
        return
    if alg not in LEN:
        w.check(alg.endswith("-spec-ex"), "digest_regex(%r) accepted" % alg, {"regex": alg, "s": s})
        return
    exp = bool(re.fullmatch(r"[0-9a-fA-F]{%d}" % LEN[alg], s))
    try:
        got = bool(re.fullmatch(r, s))
    except Exception as e:
        w.fail("digest_regex(%r) not usable: %r" % (alg, e), {"regex": alg, "s": s})
        return
    w.check(got == exp, "digest_regex(%r) on %r: %r" % (alg, s, got), {"regex": alg, "s": s})


def check_norm(w, alg, a, b):
    from ocfl.digest import normalized_digest
    w.case(("norm", alg, a, b))
    inp = {"norm": alg, "a": a, "b": b}
    try:
        x, y = normalized_digest(a, alg), normalized_digest(b, alg)
    except Exception as e:
        w.fail("normalized_digest(%r, %r) raised %r" % (a, alg, e), inp)
        return
    w.check((x == y) == (a.lower() == b.lower()), "normalized_digest of %r and %r (%s): %r and %r" % (a, b, alg, x, y), inp)


def run(w):
    rng = w.rng
    strs, ints = source_constants(["digest.py"])
    strs2, _ = source_constants()
    algs = list(FILE) + ["sha512-spec-ex", "sha256-spec-ex"]
    for alg in algs + [None]:
        for size in (0, 1, 2, 3, 1000):
            check_file(w, size, alg, 7)
    for size in (3, 9, 65536, 65545, 131072, 131081):
        for k in range(len(ENDS)):
            check_file(w, size, "sha256", -k - 1)
    sizes = {0, 1, 63, 64, 65, 127, 128, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, 131071, 131072, 131073, 200000, 262144, 300000, 1048576, 1048577}
    for i in ints:
        if 0 < i < 3000000:
            sizes |= {i, i - 1, i + 1, 2 * i, 2 * i + 1, i * 1024, i * 1024 + 1, i * 1024 - 1} if i < 2000 else {i, i - 1, i + 1, 2 * i}
    for size in sorted(sizes):
        if w.time_share(0.3):
            break
        for alg in algs:
            check_file(w, size, alg, size % 11)
    for alg in set(strs + ["SHA512", "sha-512", "", "sha512 ", "sha384", "blake2b", "sha3-256", "blake2s", "shake128", "md4", "crc32", "sha224", "blake2b-128"]):
        if alg in FILE or alg.endswith("spec-ex"):
            continue
        check_file(w, 10, alg, 1)
        check_str(w, "abc", alg)
        check_regex(w, alg, "abc")
    for alg in STRS:
        for s in ["", "a", "\u00e9", "\U0001F600" * 3, "x" * 70000, "\r\n", "a\x00b"] + strs2[:300]:
            check_str(w, s, alg)
    hexs = "0123456789abcdefABCDEF"
    k = 0
    while w.more() and k < 6000:
        k += 1
        alg = rng.choice(list(LEN))
        n = LEN[alg]
        s = "".join(rng.choice(hexs) for _ in range(rng.choice([n, n, n, n - 1, n + 1, 32, 40, 64, 96, 128])))
        r = rng.random()
        if r < 0.3 and s:
            i = rng.randrange(len(s))
            s = s[:i] + rng.choice("gG \n-x\u0661:@/`") + s[i + 1:]
        elif r < 0.4:
            s += rng.choice(["\n", " ", "\x00", "a"])
        elif r < 0.45:
            s = rng.choice(["\n", " ", "a"]) + s
        check_regex(w, alg, s)
        d = "".join(rng.choice(hexs) for _ in range(rng.choice([n, 8, 4])))
        e = "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in d)
        if rng.random() < 0.5 and e:
            i = rng.randrange(len(e))
            e = e[:i] + rng.choice(hexs) + e[i + 1:]
        check_norm(w, alg, d, e)
        check_str(w, text(rng), rng.choice(STRS))
    special = ["\u00df", "ss", "SS", "\u0130", "i\u0307", "I", "\u0131", "\ufb03", "ffi", "\u1e9e", "\u03c2", "\u03c3", "\u03a3", "\u00b5", "\u03bc", "0", "O", " a", "a", "a ", "-a", "a\n"]
    for a in special:
        for b in special:
            check_norm(w, "sha512", a, b)


def replay(w, i):
    if "size" in i:
        check_file(w, i["size"], i["alg"], i["salt"])
    elif "str" in i:
        check_str(w, i["str"], i["alg"])
    elif "regex" in i:
        check_regex(w, i["regex"], i["s"])
    else:
        check_norm(w, i["norm"], i["a"], i["b"])


def hint(w, task, inputs):
    if "txt" in inputs and "digest_type" in inputs:
        check_str(w, inputs["txt"], inputs["digest_type"])
    if "digest" in inputs:
        for a in LEN:
            check_norm(w, a, inputs["digest"], inputs["digest"].lower())
    elif "digest_type" in inputs:
        check_file(w, 10, inputs["digest_type"], 1)
