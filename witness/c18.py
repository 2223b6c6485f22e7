"""C18: Namaste declarations."""
import os
import re
import shutil

from common import source_constants, text, word, WEIRD

RULE = "tags 0..10 and texts, contents over all special characters and lengths around 40, directories with near-miss names, altered file contents; with and without a filesystem object"


def tval(c):
    c = c.strip()[:40]
    return "".join(x if (x.isalnum() or x == "_" or x in ".-:") else "_" for x in c)


def wordy(x):
    return re.match(r"[\w.\-:]", x) is not None


def fsys(d):
    from fsspec.implementations.dirfs import DirFileSystem
    from fsspec.implementations.local import LocalFileSystem
    return DirFileSystem(d, LocalFileSystem())


def check_tvalue(w, c):
    from ocfl.namaste import content_to_tvalue
    w.case(("tvalue", c))
    t = content_to_tvalue(c)
    exp = "".join(x if wordy(x) else "_" for x in c.strip()[:40])
    w.check(t == exp, "content_to_tvalue(%r) gave %r, not %r" % (c, t, exp), {"tvalue": c})


def usable(name):
    return "/" not in name and "\x00" not in name and len(name.encode("utf-8")) <= 250


def check_round(w, tag, c, usefs, sub):
    from ocfl.namaste import Namaste, find_namastes, get_namaste, NamasteException
    inp = {"tag": tag, "content": c, "usefs": usefs, "sub": sub}
    w.case(("round", tag, c, usefs, sub))
    exp = "".join(x if wordy(x) else "_" for x in c.strip()[:40])
    if not usable(str(tag) + "=" + exp):
        return
    d = w.mkdir()
    try:
        os.mkdir(os.path.join(d, "sub"))
        open(os.path.join(d, "other"), "w").close()
        kw = {"dir": "sub" if sub else "", "fsw": fsys(d)} if usefs else {"dir": os.path.join(d, "sub") if sub else d}
        n = Namaste(tag, c)
        w.check(n.filename == "%s=%s" % (tag, exp), "file name of Namaste(%r, %r) is %r" % (tag, c, n.filename), inp)
        n.write(**kw)
        path = os.path.join(d, "sub" if sub else "", "%s=%s" % (tag, exp))
        if not w.check(os.path.isfile(path), "Namaste(%r, %r).write made no file %r" % (tag, c, os.path.basename(path)), inp):
            return
        with open(path, "rb") as fh:
            b = fh.read()
        w.check(b == (c + "\n").encode("utf-8"), "Namaste(%r, %r).write wrote %r" % (tag, c, b), inp)
        got = [(x.d, x.tvalue, x.filename) for x in find_namastes(tag, **kw)]
        w.check(got == [(tag, exp, "%s=%s" % (tag, exp))], "after writing (%r, %r) find_namastes gives %r" % (tag, c, got), inp)
        for x in find_namastes(tag, **kw) + [n]:
            w.check(x.content_ok(**kw) is True, "content check of (%r, %r) fails after writing" % (tag, c), inp)
            x.check_content(**kw)
        if not usefs:
            g = get_namaste(tag, kw["dir"])
            w.check(g.filename == n.filename, "get_namaste(%r) gives %r" % (tag, g.filename), inp)
        for bad in (c + "x", "", "x" + c, c[:-1], "\n" + c + "q", c.swapcase()):
            with open(path, "w", encoding="utf-8", newline="") as fh:
                fh.write(bad)
            ok = "".join(x if wordy(x) else "_" for x in bad.strip()[:40]) == exp
            got = Namaste(tag, tvalue=exp).content_ok(**kw)
            w.check(got is ok or "\r" in bad, "content %r for %r=%r: content_ok is %r" % (bad, tag, exp, got), inp)
            try:
                Namaste(tag, tvalue=exp).check_content(**kw)
                raised = False
            except NamasteException:
                raised = True
            w.check(raised is not ok or "\r" in bad, "content %r for %r=%r: check_content raised: %r" % (bad, tag, exp, raised), inp)
        os.unlink(path)
        w.check(n.content_ok(**kw) is False and Namaste(tag, tvalue=exp).content_ok(**kw) is False, "missing file %r=%r passes the content check" % (tag, exp), inp)
    except NamasteException as e:
        w.fail("Namaste round trip of (%r, %r) raised %r" % (tag, c, e), inp)
    except (OSError, UnicodeError) as e:
        if "surrogates" not in str(e):
            w.fail("Namaste round trip of (%r, %r) raised %r" % (tag, c, e), inp)
    finally:
        w.rmdir(d)


def check_find(w, tag, names, limit, usefs):
    from ocfl.namaste import find_namastes, get_namaste, NamasteException
    names = sorted({n for n in names if usable(n) and n not in ("", ".", "..")})
    inp = {"find": tag, "names": names, "limit": limit, "usefs": usefs}
    w.case(("find", tag, tuple(names), limit, usefs))
    d = w.mkdir()
    try:
        for n in names:
            open(os.path.join(d, n), "w").close()
        exp = sorted(n for n in names if n[:len(str(tag)) + 1] == str(tag) + "=")
        lim = 10 if limit is None else limit
        kw = {} if limit is None else {"limit": limit}
        try:
            got = [x.filename for x in (find_namastes(tag, dir="", fsw=fsys(d), **kw) if usefs else find_namastes(tag, d, **kw))]
        except NamasteException:
            got = None
        w.check(got == (exp if len(exp) <= lim else None), "find_namastes(%r, limit=%r) among %r gave %r" % (tag, limit, names, got), inp)
        if not usefs:
            try:
                g = get_namaste(tag, d).filename
            except NamasteException:
                g = None
            w.check(g == (exp[0] if len(exp) == 1 else None), "get_namaste(%r) among %r gave %r" % (tag, names, g), inp)
    finally:
        w.rmdir(d)


def contents(w):
    for s in ("ocfl_1.0", "ocfl_object_1.1", "a b/c", "  x  ", "\tx\n", "x\n", "é", "a\u0301", "\U0001F600", "a" * 39, "a" * 40, "a" * 41, " " + "b" * 40 + " ", "a" * 39 + " b", "a" * 40 + " b", "é" * 40, "/" * 45, "_:-.", "a=b", "=", "0=x", "a\nb", "\u00a0x", "x\u2028y", "\x1cx",
              "." * 41, " " * 30 + "c" * 45):
        yield s
    strs, _ = source_constants()
    for s in strs[:300]:
        yield s
    for s in WEIRD:
        yield s + "a"
        yield "a" + s + "b"
        yield "a" + s
    while True:
        yield text(w.rng, 8)
        yield word(w.rng, 50, "ab c./:-_é\n%")


def run(w):
    rng = w.rng
    k = 0
    for i in range(60):
        n = [0, 1, 2, 9, 10, 11, 12][i % 7]
        tag = rng.choice([0, 1, 4, 10, "x"])
        names = ["%s=%s" % (tag, "n%02d" % j) for j in range(n)]
        names += rng.sample(["%s" % tag, "%s==" % tag, "1%s=a" % tag, " %s=a" % tag, "0=a", "00=a", "10=a", "%s-=a" % tag, "a", "x=0", "=%s" % tag, "0=ocfl_1.0", "4=", "X=a", "10=b"], 6)
        check_find(w, tag, names, rng.choice([None, None, 1, 0, n, n - 1 if n else 0, n + 1]), i % 2 == 0)
    for c in contents(w):
        k += 1
        if not w.more() or k > 4000:
            break
        check_tvalue(w, c)
        if c.strip() and "\r" not in c:
            for uf in (True, False):
                check_round(w, rng.choice([0, 0, 1, 3, 10, "4", "x"]), c, uf, rng.random() < 0.4)


def replay(w, i):
    if "tvalue" in i:
        check_tvalue(w, i["tvalue"])
    elif "find" in i:
        check_find(w, i["find"], i["names"], i["limit"], i["usefs"])
    else:
        check_round(w, i["tag"], i["content"], i["usefs"], i["sub"])


def hint(w, task, inputs):
    c = inputs.get("content")
    if isinstance(c, str):
        check_tvalue(w, c)
        if c.strip() and "\r" not in c:
            check_round(w, 0, c, True, False)
            check_round(w, 0, c, False, False)
