"""C11: storage root layouts."""
import hashlib

from common import source_constants, text, word, WEIRD

RULE = "ids over all special characters and lengths to 300, each layout with every documented parameter value, parameters of every type; paths compared with an independent implementation and for collisions"
SAFE = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


def pct(s, safe, upper, plus=False):
    out = ""
    for ch in s:
        if ch in safe:
            out += ch
        elif plus and ch == " ":
            out += "+"
        else:
            for b in ch.encode("utf-8"):
                out += "%" + ("%02X" if upper else "%02x") % b
    return out


def ppath(s):
    out = ""
    for ch in s:
        o = ord(ch)
        if ch in '"*+,<=>?\\^|' or o < 33:
            out += "^%02x" % o
        elif o > 126:
            for b in ch.encode("utf-8"):
                out += "^%02x" % b if b > 126 or b < 33 else chr(b)
        else:
            out += ch
    return out.replace("/", "=").replace(":", "+").replace(".", ",")


def spec(name, params, i):
    if name == "0002":
        return None if i in ("", ".", "..") or "/" in i else i
    if name == "0003":
        if i == "":
            return None
        d = hashlib.new(params.get("digestAlgorithm", "sha256"), i.encode("utf-8")).hexdigest()
        ts, nt = params.get("tupleSize", 3), params.get("numberOfTuples", 3)
        e = pct(i, SAFE + "-_", False)
        if len(e) > 100:
            e = e[:100] + "-" + d
        return "/".join([d[k * ts:(k + 1) * ts] for k in range(nt)] + [e])
    if name == "flat-quoted":
        return None if i in ("", ".", "..") else pct(i, SAFE + "_.-~", True, True)
    if name == "nnnn-tuple-tree":
        if i == "":
            return None
        e = ppath(i)
        ts = params.get("tupleSize", 2)
        return "/".join([e[k:k + ts] for k in range(0, len(e), ts)] + [e])
    if name == "nnnn-uuid-quadtree":
        p = params.get("prefix", "urn:uuid:")
        if not i.startswith(p):
            return None
        u = i[len(p):]
        if len(u) != 36 or any(u[k] != "-" for k in (8, 13, 18, 23)) or any(c not in "0123456789abcdef" for k, c in enumerate(u) if k not in (8, 13, 18, 23)):
            return None
        u = u.replace("-", "")
        return "/".join(u[k:k + 4] for k in range(0, 32, 4))


LONG = {"0002": "0002-flat-direct-storage-layout", "0003": "0003-hash-and-id-n-tuple-storage-layout", "flat-quoted": "nnnn-flat-quoted-storage-layout",
        "nnnn-tuple-tree": "nnnn-tuple-tree-layout", "nnnn-uuid-quadtree": "nnnn-uuid-quadtree"}
ATTR = {"digestAlgorithm": "digest_algorithm", "tupleSize": "tuple_size", "numberOfTuples": "number_of_tuples", "prefix": "prefix"}


def make(name, params):
    from ocfl.layout_registry import get_layout
    lay = get_layout(name)
    if params:
        cfg = dict(params)
        cfg["extensionName"] = lay.NAME
        lay.check_and_set_layout_params(cfg)
    return lay


def check(w, name, params, i, seen=None):
    from ocfl.layout import LayoutException
    w.case((name, repr(params), i))
    inp = {"layout": name, "params": params, "id": i}
    try:
        lay = make(name, params)
        got = lay.identifier_to_path(i)
        again = make(name, params).identifier_to_path(i)
    except LayoutException:
        got = again = None
    except Exception as e:
        w.fail("layout %s %r on %r raised %r" % (name, params, i, e), inp)
        return
    exp = spec(name, params, i)
    if exp is not None and len(exp) > 0 and (exp.startswith("/") or any(s in ("", ".", "..") for s in exp.split("/"))):
        exp = None      # cannot be mapped safely
    ok = w.check(got == exp and again == got, "layout %s %r maps %r to %r, not %r" % (name, params, i, got, exp), inp)
    if ok and got is not None and seen is not None:
        if seen.setdefault(got, i) != i:
            w.fail("layout %s %r maps %r and %r to %r" % (name, params, i, seen[got], got), inp)


def params_ok(name, p):
    def isint(v):
        return type(v) is int
    if name == "0003":
        a, ts, nt = p.get("digestAlgorithm"), p.get("tupleSize"), p.get("numberOfTuples")
        if not isinstance(a, str) or a not in ("md5", "sha1", "sha256", "sha512") or not isint(ts) or not isint(nt) or not 0 <= ts <= 32 or not 0 <= nt <= 32:
            return False
        return (ts == 0) == (nt == 0) and ts * nt <= {"md5": 32, "sha1": 40, "sha256": 64, "sha512": 128}[a]
    if name == "nnnn-tuple-tree":
        return isint(p.get("tupleSize")) and 2 <= p["tupleSize"] <= 6
    if name == "nnnn-uuid-quadtree":
        return isinstance(p.get("prefix"), str) and p["prefix"] != ""
    return True


def check_params(w, name, params, extname=True):
    from ocfl.layout_registry import get_layout
    from ocfl.layout import LayoutException
    w.case(("params", name, repr(params), extname))
    inp = {"layout": name, "setparams": params, "extname": extname}
    lay = get_layout(name)
    cfg = dict(params)
    ok = params_ok(name, params)
    if extname is True:
        cfg["extensionName"] = LONG[name]
    elif extname is not None:
        cfg["extensionName"] = extname
        ok = ok and extname == LONG[name]
    else:
        ok = False
    try:
        lay.check_and_set_layout_params(cfg)
        got = True
    except LayoutException:
        got = False
    except Exception as e:
        w.fail("parameters %r of layout %s raised %r" % (cfg, name, e), inp)
        return
    if not w.check(got == ok, "parameters %r of layout %s %s" % (cfg, name, "accepted" if got else "refused"), inp):
        return
    if got and name in ("0003", "nnnn-tuple-tree", "nnnn-uuid-quadtree"):
        for k in params:
            if k in ATTR:
                w.check(getattr(lay, ATTR[k]) == params[k], "parameter %s of layout %s is %r after setting %r" % (k, name, getattr(lay, ATTR[k]), params[k]), inp)
        w.check({k: v for k, v in lay.config.items() if k in params} == {k: v for k, v in params.items() if k in lay.config} and lay.config.get("extensionName") == LONG[name],
                "config of layout %s after setting %r: %r" % (name, params, lay.config), inp)


def variants(w, full):
    yield "0002", {}
    yield "flat-quoted", {}
    yield "0003", {}
    yield "nnnn-tuple-tree", {}
    yield "nnnn-uuid-quadtree", {}
    for a in ("sha256", "sha512", "md5", "sha1"):
        for ts, nt in ((0, 0), (1, 1), (2, 3), (3, 3), (32, 1), (1, 32), (4, 8), (8, 4)) + (((32, 2), (2, 32), (16, 4), (7, 9)) if a[3:] in ("256", "512") else ()) + (((32, 4), (4, 32), (31, 4)) if a == "sha512" else ()):
            yield "0003", {"digestAlgorithm": a, "tupleSize": ts, "numberOfTuples": nt}
    for ts in (2, 3, 4, 5, 6):
        yield "nnnn-tuple-tree", {"tupleSize": ts}
    for p in ("urn:uuid:", "x", ".*", "http://a/", "urn:uuid"):
        yield "nnnn-uuid-quadtree", {"prefix": p}


UU = "6ba7b810-9dad-11d1-80b4-00c04fd430c8"


def ids(w):
    rng = w.rng
    strs, ints = source_constants()
    for s in strs[:400]:
        yield s
    for p in ("urn:uuid:", "x", ".*", "http://a/", "urn:uuid", ""):
        for u in (UU, UU.upper(), UU + "\n", UU[:-1], UU + "0", UU.replace("-", ""), "\n" + UU, UU.replace("8", "g"), UU.replace("0", "\u0660"), UU.replace("-", "_"), UU.replace("b8", "-8"), UU[:4] + "/" + UU[5:]):
            yield p + u
    for s in WEIRD:
        yield s
        yield s * 2
        yield s + "a"
        yield "a" + s
        yield "a" + s + "b"
    for n in (1, 2, 3, 4, 5, 6, 7, 12, 13, 33, 34, 50, 99, 100, 101, 102, 255, 300) + tuple(i for i in ints if 0 < i < 400):
        for c in ("a", "é", ".", "A", "-"):
            yield c * n
            yield c * (n - 1) + "b"
            yield "b" + c * (n - 1) + "/"
    for c in range(0, 260):
        yield chr(c)
        yield "x" + chr(c)
    for c in (0x300, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x661, 0x130):
        yield chr(c)
        yield "ab" + chr(c) + "c"
    while True:
        yield text(rng, 8)
        yield word(rng, 12)
        s = "%08x-%04x-%04x-%04x-%012x" % (rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(48))
        yield "urn:uuid:" + s
        if rng.random() < 0.3:
            i = rng.randrange(len(s))
            yield "urn:uuid:" + s[:i] + rng.choice("gA-\n. 0") + s[i + 1:]


VALS = [None, True, False, 0, 1, 2, 3, 6, 7, 31, 32, 33, -1, 2.0, 3.5, "", "3", "sha256", "sha512", "md5", "sha1", "SHA256", "sha384", "blake2b-512", "sha512-spec-ex", " ", [], [3], {}, {"a": 1}, 10 ** 20, float("nan")]


def run(w):
    vs = list(variants(w, True))
    for name in LONG:
        for e in (True, None, "", "x", LONG[name], LONG[name] + " ", 5, [], "0003"):
            p = {"0003": {"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 4}, "nnnn-tuple-tree": {"tupleSize": 3}, "nnnn-uuid-quadtree": {"prefix": "a"}}.get(name, {})
            check_params(w, name, p, e)
        if name in ("0002", "flat-quoted"):
            check_params(w, name, {"tupleSize": 99})
    for v in VALS:
        check_params(w, "nnnn-tuple-tree", {"tupleSize": v}) if v is not True and v is not False else None
        check_params(w, "nnnn-uuid-quadtree", {"prefix": v})
        for k in ("digestAlgorithm", "tupleSize", "numberOfTuples"):
            p = {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}
            p[k] = v
            check_params(w, "0003", p)
            del p[k]
            check_params(w, "0003", p)
    for a, n in (("md5", 32), ("sha1", 40), ("sha256", 64), ("sha512", 128)):
        for ts in range(-1, 34):
            for nt in range(-1, 34):
                if w.time_share(0.4):
                    break
                if abs(ts * nt - n) <= 8 or ts < 2 or nt < 2 or ts > 31 or nt > 31:
                    check_params(w, "0003", {"digestAlgorithm": a, "tupleSize": ts, "numberOfTuples": nt})
    seen = {repr(v): {} for v in vs}
    k = 0
    for i in ids(w):
        k += 1
        if not w.more() or k > 8000:
            break
        for v in (vs if k % 40 == 0 else vs[:5] + [w.rng.choice(vs)]):
            check(w, v[0], v[1], i, seen[repr(v)])


def replay(w, i):
    if "setparams" in i:
        check_params(w, i["layout"], i["setparams"], i["extname"])
    else:
        check(w, i["layout"], i["params"], i["id"])


def hint(w, task, inputs):
    if isinstance(inputs.get("identifier"), str):
        for v in variants(w, True):
            check(w, v[0], v[1], inputs["identifier"])
    if "value" in inputs:
        for k in ("digestAlgorithm", "tupleSize", "numberOfTuples"):
            p = {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}
            p[k] = inputs["value"]
            check_params(w, "0003", p)
        check_params(w, "nnnn-tuple-tree", {"tupleSize": inputs["value"]})
        check_params(w, "nnnn-uuid-quadtree", {"prefix": inputs["value"]})
