"""C20: inventory queries agree with the inventory data."""
import copy
import json

import model
from common import text

RULE = "generated inventories (1-12 versions, padded or not, duplicate content, mixed case digests) with blocks removed and lists emptied, every query for every recorded and many unrecorded paths and digests; normalization for each algorithm"


def expect(w, got, exp, what, inp):
    w.check(got == exp and type(got) is type(exp), "%s is %r, expected %r" % (what, got, exp), inp)


def check(w, data):
    from ocfl.inventory import Inventory
    w.case(json.dumps(data))
    inp = {"inv": data}
    orig = copy.deepcopy(data)
    data = copy.deepcopy(data)
    try:
        inv = Inventory(data)
        man = orig.get("manifest", {})
        vers = orig.get("versions", {})
        expect(w, inv.id, orig.get("id"), "id", inp)
        expect(w, inv.head, orig.get("head"), "head", inp)
        expect(w, inv.digest_algorithm, orig.get("digestAlgorithm"), "digest_algorithm", inp)
        expect(w, inv.content_directory, orig.get("contentDirectory"), "content_directory", inp)
        expect(w, inv.content_directory_to_use, orig.get("contentDirectory", "content"), "content_directory_to_use", inp)
        t = orig.get("type", "")
        expect(w, inv.spec_version, t[16:-16] if t in ("https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory") else None, "spec_version", inp)
        expect(w, inv.manifest, man, "manifest", inp)
        expect(w, inv.fixity, orig.get("fixity", {}), "fixity", inp)
        expect(w, inv.content, {f: d for d, fl in man.items() for f in fl}, "content", inp)
        expect(w, inv.content_paths, [f for fl in man.values() for f in fl], "content_paths", inp)
        expect(w, inv.versions_block, vers, "versions_block", inp)
        order = sorted(vers, key=lambda v: int(v[1:]))
        expect(w, inv.version_directories, order, "version_directories", inp)
        expect(w, inv.version_numbers, [int(v[1:]) for v in order], "version_numbers", inp)
        expect(w, [v.vdir for v in inv.versions()], order, "versions()", inp)
        if "head" in orig:
            expect(w, inv.current_version.vdir, orig["head"], "current_version", inp)
        probes = sorted({f for fl in man.values() for f in fl} | {f for v in vers.values() for fl in v.get("state", {}).values() for f in fl})
        probes = probes[:12] + ["", "nope", "a/nope"] + [p[:-1] for p in probes[:3]] + [p + "/" for p in probes[:2]] + [p.upper() for p in probes[:2]]
        for p in probes:
            expect(w, inv.digest_for_content_path(p), next((d for d, fl in man.items() if p in fl), None), "digest_for_content_path(%r)" % p, inp)
        for d in list(man)[:6] + ["", "abc"] + [x.swapcase() for x in list(man)[:2]]:
            expect(w, inv.content_paths_for_digest(d), man.get(d, []), "content_paths_for_digest", inp)
            expect(w, inv.content_path_for_digest(d), man[d][0] if man.get(d) else None, "content_path_for_digest", inp)
        where = {}
        for v in order + ["v999"]:
            b = vers.get(v, {})
            st = b.get("state", {})
            ver = inv.version(v)
            expect(w, inv.versiondata(v), b, "versiondata", inp)
            expect(w, ver.created, b.get("created"), "created", inp)
            expect(w, ver.message, b.get("message"), "message", inp)
            expect(w, ver.user, b.get("user", {}), "user", inp)
            expect(w, ver.user_name, b.get("user", {}).get("name"), "user_name", inp)
            expect(w, ver.user_address, b.get("user", {}).get("address"), "user_address", inp)
            expect(w, ver.state, st, "state", inp)
            expect(w, ver.logical_paths, [f for fl in st.values() for f in fl], "logical_paths", inp)
            expect(w, ver.number, int(v[1:]), "number", inp)
            for p in probes:
                d = next((d for d, fl in st.items() if p in fl), None)
                c = man[d][0] if d is not None and man.get(d) else None
                expect(w, ver.digest_for_logical_path(p), d, "digest_for_logical_path(%r) of %s" % (p, v), inp)
                expect(w, ver.content_path_for_logical_path(p), c, "content_path_for_logical_path(%r) of %s" % (p, v), inp)
                if d is not None and v in vers:
                    where[p] = (v, c)
        for p in probes:
            expect(w, inv.find_logical_path(p), where.get(p, (None, None)), "find_logical_path(%r)" % p, inp)
        expect(w, json.loads(inv.as_json()), orig, "as_json", inp)
        w.check(data == orig, "querying changed the data", inp)
        copied = Inventory(inv)
        expect(w, copied.data, orig, "copy", inp)
        w.check(copied.data is not data, "copy shares the data", inp)
        alg = orig.get("digestAlgorithm")
        inv.normalize_digests(alg)
        exp = copy.deepcopy(orig)
        if "manifest" in exp:
            exp["manifest"] = {d.lower(): fl for d, fl in man.items()}
        for v in exp.get("versions", {}).values():
            if "state" in v:
                v["state"] = {d.lower(): fl for d, fl in v["state"].items()}
        w.check(inv.data == exp, "normalize_digests changed more than letter case or lost files", inp)
    except Exception as e:
        if type(e).__name__ == "Stop":
            raise
        w.fail("query raised %r" % (e,), inp)


def gen(rng):
    inv = model.gen_inv(rng, nv=rng.choice([1, 2, 3, 10, 12]), case=rng.choice([0, 1, 2]))
    for k in ("id", "head", "type", "manifest", "versions", "contentDirectory", "fixity"):
        if rng.random() < 0.06:
            inv.pop(k, None)
    for v in inv.get("versions", {}).values():
        for k in ("state", "created", "message", "user"):
            if rng.random() < 0.06:
                v.pop(k, None)
        if rng.random() < 0.1 and v.get("state"):
            v["state"][rng.choice(list(v["state"]))] = []
        if rng.random() < 0.1:
            v.setdefault("state", {})["f" * 128] = ["orphan " + text(rng)]
    if rng.random() < 0.1 and inv.get("manifest"):
        inv["manifest"][rng.choice(list(inv["manifest"]))] = []
    if rng.random() < 0.1:
        for k in rng.sample(list(inv.get("versions", {})), min(1, len(inv.get("versions", {})))):
            del inv["versions"][k]
    return inv


def run(w):
    check(w, {})
    check(w, {"manifest": {}})
    check(w, {"versions": {}})
    while w.more():
        check(w, gen(w.rng))


def replay(w, i):
    check(w, i["inv"])
