"""Independent model of OCFL inventories and objects: generator of conforming ones, oracle for inventories. Uses nothing of ocfl-py."""
import copy
import hashlib
import json
import os
import re

from c15 import spec as dt_spec
from common import word, text, WEIRD

ALGLEN = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32, "blake2b-512": 128, "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}
HEXRE = {a: re.compile(r"[0-9a-fA-F]{%d}\Z" % n) for a, n in ALGLEN.items()}
HEXRE["sha512-spec-ex"] = HEXRE["sha256-spec-ex"] = re.compile(r"[0-9a-f]{6}\.\.\.[0-9a-f]{3}\Z")


def digest(alg, b):
    if alg.startswith("blake2b-"):
        return hashlib.blake2b(b, digest_size=int(alg[8:]) // 8).hexdigest()
    return hashlib.new(alg, b).hexdigest()


def paths_ok(paths):
    """No path twice, none also a directory of another."""
    s = set(paths)
    if len(s) != len(paths):
        return False
    for p in paths:
        e = p.split("/")
        for i in range(1, len(e)):
            if "/".join(e[:i]) in s:
                return False
    return True


def inv_ok(inv, why=None):
    """Does the value meet every MUST?  why: list that gets the reasons."""
    bad = why if why is not None else []

    def no(x):
        bad.append(x)
    if not isinstance(inv, dict):
        no("not an object")
        return False
    if not isinstance(inv.get("id"), str) or inv["id"] == "":
        no("id")
    if not isinstance(inv.get("type"), str) or inv["type"] not in ("https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory"):
        no("type")
    alg = inv.get("digestAlgorithm")
    if not isinstance(alg, str) or alg not in ("sha512", "sha256"):
        no("digestAlgorithm")
        return False
    cd = inv.get("contentDirectory", "content")
    if not isinstance(cd, str) or "/" in cd or cd in (".", ".."):
        no("contentDirectory")
    versions = inv.get("versions")
    seq = []
    if not isinstance(versions, dict) or not versions:
        no("versions")
        versions = {}
    else:
        n = len(versions)
        for width in [1] + list(range(2, 11)):
            seq = ["v" + str(i).rjust(width, "0") for i in range(1, n + 1)]
            if seq[0] in versions:
                break
        else:
            seq = []
        if seq and width > 1 and n > 10 ** (width - 1) - 1:
            no("version padding overflow")
        if set(seq) != set(versions):
            no("version sequence")
    if "head" not in inv or not seq or inv["head"] != seq[-1] or not isinstance(inv["head"], str):
        no("head")
    manifest = inv.get("manifest")
    cpaths, mdig, used = [], set(), set()
    if not isinstance(manifest, dict):
        no("manifest")
        manifest = {}
    for d, fl in manifest.items():
        if not HEXRE[alg].match(d):
            no("manifest digest")
        if not isinstance(fl, list) or not all(isinstance(f, str) for f in fl):
            no("manifest files")
            continue
        if d.lower() in used:
            no("digest twice")
        used.add(d.lower())
        if fl:
            mdig.add(d.lower())
        for f in fl:
            cpaths.append(f)
            e = f.split("/")
            if len(e) < 3 or e[0] not in versions or e[1] != cd or any(x in ("", ".", "..") for x in e):
                no("content path")
    if not paths_ok(cpaths):
        no("content paths conflict")
    sdig = set()
    for v, b in versions.items():
        if not isinstance(b, dict):
            no("version block")
            continue
        c = b.get("created")
        if not isinstance(c, str) or dt_spec(c) is None or not re.search(r"T\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)\Z", c):
            no("created")
        st = b.get("state")
        lps = []
        if not isinstance(st, dict):
            no("state")
            st = {}
        for d, fl in st.items():
            if not HEXRE[alg].match(d) or d not in manifest:
                no("state digest")
            if not isinstance(fl, list) or not all(isinstance(f, str) for f in fl):
                no("state files")
                continue
            sdig.add(d.lower())
            for f in fl:
                lps.append(f)
                if any(x in ("", ".", "..") for x in f.split("/")):
                    no("logical path")
        if not paths_ok(lps):
            no("logical paths conflict")
        if "message" in b and not isinstance(b["message"], str):
            no("message")
        if "user" in b:
            u = b["user"]
            if not isinstance(u, dict) or not isinstance(u.get("name"), str) or ("address" in u and not isinstance(u["address"], str)):
                no("user")
    if sdig - mdig:
        no("digest in state without content")
    if mdig - sdig:
        no("content in no state")
    if "fixity" in inv:
        fx = inv["fixity"]
        if not isinstance(fx, dict):
            no("fixity")
            fx = {}
        for a, blk in fx.items():
            if a not in HEXRE:
                no("fixity algorithm")
                continue
            if not isinstance(blk, dict):
                no("fixity block")
                continue
            seen = set()
            for d, fl in blk.items():
                if not HEXRE[a].match(d):
                    no("fixity digest")
                k = d if a.endswith("spec-ex") else d.lower()
                if k in seen:
                    no("fixity digest twice")
                seen.add(k)
                if not isinstance(fl, list) or not all(isinstance(f, str) and f in cpaths for f in fl):
                    no("fixity files")
    return not bad


def rcase(rng, d, mode):
    if mode == 0:
        return d
    if mode == 1:
        return d.upper()
    return "".join(c.upper() if rng.random() < 0.5 else c for c in d)


LNAMES = ["a", "b", "c.txt", "a b", "é", "%41", "a%2Fb", "-x", ".h", "...", "a+b", "a#b", "a?b", "[a]", "aa", "A", "a:b", "v1", "content", "a=b", "x" * 60, "0", "*", "inventory.json", "a__2", "~",
          "a\\b", "'", "\"", "\u2028", "a\nb", " a", "a ", "&", "<", "\U0001F600", "e\u0301"]


def rpath(rng, names=LNAMES, maxdepth=3):
    return "/".join(rng.choice(names) for _ in range(rng.randint(1, maxdepth)))


def add_path(paths, p):
    return p not in paths and paths_ok(list(paths) + [p])


def gen_state(rng, prev, pool, safe=False):
    """logical path -> content, edited from prev"""
    st = dict(prev)
    names = [n for n in LNAMES if "\n" not in n] if safe else LNAMES
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.65 or not st:
            p = rpath(rng, names)
            if add_path(st, p):
                st[p] = rng.choice(pool)
        elif r < 0.8:
            del st[rng.choice(sorted(st))]
        elif r < 0.9:
            q = rng.choice(sorted(st))
            p = rpath(rng, names)
            if add_path([x for x in st if x != q], p):
                st[p] = st.pop(q)
        else:
            st[rng.choice(sorted(st))] = rng.choice(pool)
    return st


class Obj:
    """A generated object: history, inventories, files."""


def gen_object(rng, nv=None, mixed_alg=False, fixity=None, alg=None, cd=None, width=None, spec=None, minimal=False, case=None, all_inv=None):
    o = Obj()
    o.id = rng.choice(["http://example.org/a", "info:x/y", "ark:/12345/bcd987", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "no-scheme", "é", "x" * 150, "a/b", ".", "\n", "id " + word(rng)])
    nv = nv or rng.choice([1, 1, 2, 2, 3, 4, 11])
    o.cd = cd or rng.choice(["content", "content", "content", "data", "c c", "..x", "v1", "inventory", "éè"])
    width = width if width is not None else rng.choice([0, 0, 0, 2, 3, 5])
    if width and nv > 10 ** (width - 1) - 1:
        width = 3
    o.vdirs = ["v" + str(i).rjust(width, "0") for i in range(1, nv + 1)]
    algs = []
    a = alg or rng.choice(["sha512", "sha256"])
    for i in range(nv):
        if mixed_alg and i and rng.random() < 0.4:
            a = rng.choice(["sha512", "sha256"])
        algs.append(a)
    o.alg = algs[-1]
    o.algs = algs
    specs = []
    s = spec or rng.choice(["1.0", "1.1", "1.1"])
    for i in range(nv):
        if s == "1.0" and i and not spec and rng.random() < 0.3:
            s = "1.1"
        specs.append(s)
    o.spec = specs[-1]
    o.specs = specs
    pool = [b"", b"a", b"content\n", b"x" * 100] + [bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 20))) for _ in range(3)]
    o.states, o.meta, o.content, o.files = [], [], {}, {}     # content: path -> bytes
    st = {}
    by = {}     # content bytes -> list of content paths
    cmode = case if case is not None else rng.choice([0, 0, 0, 1, 2])
    o.invs = []
    dcase = {}
    o.fixalgs = fixity if fixity is not None else rng.choice([[], [], ["md5"], ["sha1", "md5"], ["blake2b-512", "sha256"], ["sha512", "blake2b-160"]])
    for i, v in enumerate(o.vdirs):
        st = gen_state(rng, st, pool)
        o.states.append(dict(st))
        m = {"created": rng.choice(["2020-01-01T00:00:00Z", "2019-12-31T23:59:59.123+01:00", "2018-10-02T12:00:00-05:30", "2000-02-29T00:00:00.000001Z"])}
        if rng.random() < 0.7:
            m["message"] = rng.choice(["", "msg", text(rng)])
        if rng.random() < 0.7:
            m["user"] = {"name": rng.choice(["", "A", "é"])}
            if rng.random() < 0.7:
                m["user"]["address"] = rng.choice(["mailto:a@b.c", "https://orcid.org/1", "", "x"])
        o.meta.append(m)
        for p, b in st.items():
            if b not in by or rng.random() < 0.15:
                cp = v + "/" + o.cd + "/" + (p if rng.random() < 0.6 else rpath(rng))
                if not add_path(o.content, cp):
                    cp = v + "/" + o.cd + "/" + "f%d" % len(o.content)
                if add_path(o.content, cp) and (b not in by or len(by[b]) < 3):
                    o.content[cp] = b
                    by.setdefault(b, []).append(cp)
        inv = {"id": o.id, "type": "https://ocfl.io/%s/spec/#inventory" % specs[i], "digestAlgorithm": algs[i], "head": v}
        if o.cd != "content" or (minimal is False and o.fixalgs and len(o.fixalgs) > 1):
            inv["contentDirectory"] = o.cd
        man = {}
        for b, cps in by.items():
            d = digest(algs[i], b)
            d = dcase.setdefault((algs[i], d), rcase(rng, d, cmode))
            man[d] = [c for c in cps]
        inv["manifest"] = man
        inv["versions"] = {}
        order = list(range(i + 1))
        if rng.random() < 0.3:
            rng.shuffle(order)
        for j in order:
            sb = {}
            for p, b in o.states[j].items():
                d = digest(algs[i], b)
                sb.setdefault(dcase.setdefault((algs[i], d), rcase(rng, d, cmode)), []).append(p)
            inv["versions"][o.vdirs[j]] = dict(copy.deepcopy(o.meta[j]), state=sb)
        if o.fixalgs and rng.random() < 0.9:
            inv["fixity"] = {}
            for fa in o.fixalgs:
                blk = {}
                for cp, b in o.content.items():
                    if rng.random() < 0.7:
                        blk.setdefault(digest(fa, b), []).append(cp)
                inv["fixity"][fa] = {rcase(rng, d, rng.choice([0, 1])): fl for d, fl in blk.items()}
        o.invs.append(inv)
    o.inv = o.invs[-1]
    # files
    o.files = dict(o.content)
    o.dirs = set()
    o.invtext = []
    for i, v in enumerate(o.vdirs):
        t = json.dumps(o.invs[i], indent=rng.choice([None, 1, 2]), ensure_ascii=rng.random() < 0.5).encode("utf-8")
        o.invtext.append(t)
        if i == nv - 1 or all_inv or (all_inv is None and rng.random() < 0.9):
            o.files[v + "/inventory.json"] = t
            o.files[v + "/inventory.json." + algs[i]] = digest(algs[i], t).encode() + rng.choice([b" ", b"  ", b"\t"]) + b"inventory.json" + rng.choice([b"\n", b""])
    if rng.random() < 0.3 and nv > 0 and not all_inv:
        # head copy is recommended only
        for f in [x for x in o.files if x.startswith(o.vdirs[-1] + "/inventory.json")]:
            del o.files[f]
    o.files["inventory.json"] = o.invtext[-1]
    sd = digest(o.alg, o.invtext[-1])
    o.files["inventory.json." + o.alg] = rcase(rng, sd, rng.choice([0, 0, 1])).encode() + b" inventory.json\n"
    o.files["0=ocfl_object_" + o.spec] = ("ocfl_object_%s\n" % o.spec).encode()
    for v in o.vdirs:
        if not any(f.startswith(v + "/") for f in o.files):
            o.dirs.add(v)
    return o


def write(d, files, dirs=()):
    os.makedirs(d, exist_ok=True)
    for p in sorted(dirs):
        os.makedirs(os.path.join(d, p), exist_ok=True)
    for p, b in files.items():
        f = os.path.join(d, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fh:
            fh.write(b)


def snapshot(d):
    """Every entry below d: path -> bytes (files), None (directories), with types."""
    out = {}
    for dp, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(dp, x), d)] = None
        for x in fs:
            with open(os.path.join(dp, x), "rb") as fh:
                out[os.path.relpath(os.path.join(dp, x), d)] = fh.read()
    return out


def enc(files):
    return {k: (v.hex() if v is not None else None) for k, v in files.items()}


def dec(files):
    return {k: (bytes.fromhex(v) if v is not None else None) for k, v in files.items()}


def gen_inv(rng, **kw):
    return gen_object(rng, **kw).inv


JUNK = [None, True, False, 0, 1, -1, 1.5, "", "x", "v1", "v2", [], {}, [""], ["a"], [None], [[]], [{}], {"a": 1}, {"": []}, {"v1": {}}, ["v1/content/a"], "content", "..", ".", "a/b", "sha512", "sha256", "md5", 10 ** 400,
        "2020-01-01T00:00:00Z", "\ud800", "\x00", "é", float("inf")]


def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from nodes(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from nodes(x[i], path + (i,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def strmut(rng, s):
    r = rng.random()
    if r < 0.12:
        return s + rng.choice(["\n", " ", "/", "x", "0", "/.", "/..", "//a", "/a", "\x00", "Z", "+00:00"])
    if r < 0.2:
        return rng.choice(["/", " ", "\n", "x", "0", "./", "../", "v1/", "v", "\ufeff"]) + s
    if r < 0.3:
        return s.upper() if s != s.upper() else s.lower()
    if r < 0.4:
        return s.swapcase()
    if r < 0.5 and s:
        i = rng.randrange(len(s))
        return s[:i] + s[i + 1:]
    if r < 0.75 and s:
        i = rng.randrange(len(s))
        c = s[i]
        return s[:i] + rng.choice([c.swapcase(), c.swapcase(), "0", "1", "9", "g", "/", ".", " ", "\u0661", "-", ":", "T", "\n", chr(ord(c) ^ 1)]) + s[i + 1:]
    if r < 0.85 and "/" in s:
        e = s.split("/")
        i = rng.randrange(len(e))
        e[i] = rng.choice(["", ".", "..", "v1", "v2", "v01", "v9", "v0", "content", e[i] + "x", "a", "...", e[rng.randrange(len(e))]])
        return "/".join(e)
    if r < 0.92:
        e = s.split("/")
        del e[rng.randrange(len(e))]
        return "/".join(e)
    return rng.choice(WEIRD)


def mutate(rng, inv, consts=()):
    """One edit at a random place; returns a new value."""
    x = copy.deepcopy(inv)
    ps = list(nodes(x))
    p = rng.choice(ps)
    if rng.random() < 0.5 and len(ps) > 1:      # prefer shallow and structural places
        p = rng.choice([q for q in ps if len(q) <= 3] or ps)
    if not p:
        return rng.choice(JUNK) if rng.random() < 0.1 else x
    parent, k = at(x, p[:-1]), p[-1]
    v = parent[k]
    r = rng.random()
    if r < 0.13:
        del parent[k]
    elif r < 0.28:
        parent[k] = copy.deepcopy(rng.choice(JUNK))
    elif r < 0.36:
        parent[k] = copy.deepcopy(at(x, rng.choice(ps)))
    elif r < 0.56 and isinstance(parent, dict):
        nk = strmut(rng, k) if rng.random() < 0.7 else rng.choice([q[-1] for q in ps if q and isinstance(q[-1], str)] + ["v1", "v2", "v01", "v3", "v001", "message", "user", "fixity", "contentDirectory", "md5", "sha1"] + list(consts))
        if rng.random() < 0.5:
            parent[nk] = parent.pop(k)
        else:
            parent[nk] = copy.deepcopy(v)
        if rng.random() < 0.3:                  # same rename everywhere
            rename_all(x, k, nk)
    elif r < 0.8 and isinstance(v, str):
        parent[k] = strmut(rng, v)
        if rng.random() < 0.3:
            replace_all(x, v, parent[k])
    elif r < 0.9 and isinstance(v, list):
        strs = [at(x, q) for q in ps if isinstance(at(x, q), str)]
        y = rng.choice(strs) if strs and rng.random() < 0.6 else rng.choice(["a", "a/b", "v1/content/a", "v1/content/a/b", None, 5, "", "/a", "a/", "a//b", "./a", "a/.."])
        if isinstance(y, str) and rng.random() < 0.3:
            y = strmut(rng, y)
        if isinstance(y, str) and rng.random() < 0.3:
            y = y + "/" + rng.choice(["a", "b/c"])
        v.insert(rng.randint(0, len(v)), y)
    elif isinstance(v, dict):
        sub = [q[-1] for q in ps if q and isinstance(q[-1], str)]
        nk = rng.choice(sub + ["v1", "v2", "v10", "0" * 128, "a" * 64, "md5", "user", "message"] + list(consts))
        nk = strmut(rng, nk) if rng.random() < 0.3 else nk
        v[nk] = copy.deepcopy(rng.choice([[], {}, ["a"], ["v1/content/a"], "x", v.get(rng.choice(list(v))) if v else {}]))
    elif isinstance(v, list) and v:
        rng.shuffle(v)
    return x


def rename_all(x, k, nk):
    for p in list(nodes(x)):
        try:
            o = at(x, p)
        except (KeyError, IndexError, TypeError):
            continue
        if isinstance(o, dict) and k in o:
            o[nk] = o.pop(k)


def replace_all(x, a, b):
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], str) and x[k] == a:
                x[k] = b
            else:
                replace_all(x[k], a, b)
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], str) and x[i] == a:
                x[i] = b
            else:
                replace_all(x[i], a, b)


def big_inv(rng, n, width=0, alg="sha512"):
    """n versions, few files"""
    vd = ["v" + str(i).rjust(width, "0") for i in range(1, n + 1)]
    d = digest(alg, b"x")
    return {"id": "http://a/b", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": alg, "head": vd[-1], "manifest": {d: [vd[0] + "/content/x"]},
            "versions": {v: {"created": "2020-01-01T00:00:00Z", "message": "m", "user": {"name": "A", "address": "mailto:a@b"}, "state": {d: ["x"]}} for v in vd}}
