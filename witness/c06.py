"""C06: editing a new version."""
import copy
import json
import os

import model
from common import word

RULE = "random sequences of 1-25 add/delete/rename (possible and impossible ones, explicit content paths, duplicate content, path spellings that normalize to one name) on first and next versions of generated inventories, all settings, against a map of logical paths to bytes"
SRC = ["a", "b", "c.txt", "a b", "é", "%41", "a%2Fb", "-x", ".h", ".H", "%2Eh", "d/a", "d/b", "d/e/f", "D/a", "a+b", "~", "A", "x" * 80, "a:b", "d/.h", "..x", "q/..y"]


class Bad(Exception):
    pass


def play(w, inp):
    """inp: src (path->hex), inv or None, settings, ops"""
    from ocfl.inventory import Inventory
    from ocfl.new_version import NewVersion
    d = w.mkdir()
    src = {p: bytes.fromhex(b) for p, b in inp["src"].items()}
    try:
        model.write(d, src)
        s = inp["settings"]
        if inp["inv"] is None:
            nv = NewVersion.first_version(srcdir=d, identifier="x:y", digest_algorithm=s["alg"], content_directory=s["cd"], dedupe=s["dedupe"],
                                          content_path_normalization=s["norm"])
            alg = s["alg"] or "sha512"
            exp, prevstates, base = {}, {}, {}
            prev = None
        else:
            inv = Inventory(copy.deepcopy(inp["inv"]))
            alg = inv.digest_algorithm
            prevstates = {v: copy.deepcopy(b["state"]) for v, b in inp["inv"]["versions"].items()}
            base = {p: dg for dg, fl in inp["inv"]["manifest"].items() for p in fl}
            prev = inp["inv"]["head"]
            nv = NewVersion.next_version(inventory=inv, srcdir=d, spec_version=inv.spec_version, dedupe=s["dedupe"], forward_delta=s["delta"],
                                         content_path_normalization=s["norm"], carry_content_forward=s["carry"])
            exp = {p: dg for dg, fl in prevstates[prev].items() for p in fl} if s["carry"] else {}
        data = nv.inventory.data
        head = nv.inventory.head
        pre = head + "/" + (s["cd"] if inp["inv"] is None and s["cd"] else data.get("contentDirectory", "content")) + "/"

        def fail(what):
            raise Bad(what)

        def verify(when):
            st = data["versions"][head].get("state", {})
            got = {}
            for dg, fl in st.items():
                for p in fl:
                    if p in got:
                        fail("%s: logical path %r twice" % (when, p))
                    got[p] = dg
            if {p: x.lower() for p, x in got.items()} != {p: x.lower() for p, x in exp.items()}:
                fail("%s: state is %r, expected %r" % (when, got, exp))
            for v in prevstates:
                if data["versions"][v]["state"] != prevstates[v]:
                    fail("%s: state of %s changed" % (when, v))
            man = {}
            for dg, fl in data["manifest"].items():
                for p in fl:
                    if p in man:
                        fail("%s: content path %r twice" % (when, p))
                    man[p] = dg
            for p, dg in base.items():
                if man.get(p) != dg:
                    fail("%s: content path %r of an earlier version is recorded under %r, not %r" % (when, p, man.get(p), dg))
            for v, b in data["versions"].items():
                for dg in b.get("state", {}):
                    if not data["manifest"].get(dg):
                        fail("%s: digest %s in %s has no content path" % (when, dg[:9], v))
            new = {p for p in man if p not in base}
            if set(nv.files_to_copy) != new:
                fail("%s: files to copy %r, new content paths %r" % (when, sorted(nv.files_to_copy), sorted(new)))
            for p in new:
                if not p.startswith(pre) or any(e in ("", ".", "..") for e in p.split("/")):
                    fail("%s: content path %r is not in %s" % (when, p, pre))
                if model.digest(alg, src[nv.files_to_copy[p].lstrip("/")]) != man[p].lower():
                    fail("%s: file to copy to %r has other content" % (when, p))
            if set(data["versions"]) != set(prevstates) | {head} or data["head"] != head:
                fail("%s: versions changed" % when)
            diff = nv.diff_with_previous()
            old = {(dg, p) for dg, fl in prevstates.get(prev, {}).items() for p in fl}
            cur = {(dg, p) for p, dg in got.items()}
            want = {("A",) + x for x in cur - old} | {("D",) + x for x in old - cur}
            if len(diff) != len(want) or set(diff) != want:
                fail("%s: difference %r, expected %r" % (when, sorted(diff), sorted(want)))
        verify("at the start")
        for op in inp["ops"]:
            before = json.dumps(data), dict(nv.files_to_copy)
            kind = op[0]
            err = None
            try:
                if kind == "add":
                    cp = op[3].replace("<PRE>", pre).replace("<HEAD>", head) if op[3] is not None else None
                    man = [p for fl in data["manifest"].values() for p in fl]
                    if cp == "<USED>":
                        cp = (sorted(p for p in man if p not in base) or sorted(man) or [pre + "u"])[0]
                    ok = op[2] not in exp and (cp is None or (cp.startswith(pre) and cp not in man and not any(e in ("", ".", "..") for e in cp.split("/"))))
                    nv.add(op[1], op[2], **({} if cp is None else {"content_path": cp}))
                elif kind == "delete":
                    ok = op[1] in exp
                    nv.delete(op[1])
                else:
                    ok = op[1] in exp and op[2] not in exp
                    nv.rename(op[1], op[2])
            except Exception as e:
                err = e
            if err is None and not ok:
                fail("%r was not refused" % (op,))
            if err is not None:
                if ok:
                    fail("%r raised %r" % (op, err))
                st0 = json.loads(before[0])
                st1 = json.loads(json.dumps(data))
                for x in (st0, st1):        # an empty state block that appears is no change of the state
                    x["versions"][head].setdefault("state", {})
                if st0 != st1 or before[1] != nv.files_to_copy:
                    fail("refused %r changed the inventory" % (op,))
                continue
            if kind == "add":
                dg = exp[op[2]] = model.digest(alg, src[op[1]])
                # a copy is stored as the settings say (digests as spelled: an inventory read from an object has normalized ones)
                man0 = {p: x for x, fl in json.loads(before[0])["manifest"].items() for p in fl}
                cur = any(x == dg and p.startswith(head + "/") for p, x in man0.items())
                prv = any(x == dg and not p.startswith(head + "/") for p, x in man0.items())
                delta = s["delta"] if inp["inv"] is not None else True
                want = 1 if (not cur and (not prv or not delta)) or (cur and not s["dedupe"]) else 0
                n = sum(len(fl) for fl in data["manifest"].values()) - len(man0)
                if n != want:
                    fail("%r stored %d copies, with dedupe %s and forward delta %s it should be %d" % (op, n, s["dedupe"], delta, want))
            elif kind == "delete":
                del exp[op[1]]
            else:
                exp[op[2]] = exp.pop(op[1])
            verify("after %r" % (op,))
    finally:
        w.rmdir(d)


def check(w, inp):
    w.case(json.dumps(inp, sort_keys=True))
    try:
        play(w, inp)
    except Bad as e:
        w.fail(str(e)[:600], inp)
    except Exception as e:
        if type(e).__name__ == "Stop":
            raise
        w.fail("raised %r" % (e,), inp)


def check_version(w, inp):
    """Version.add_file and delete_logical_path."""
    from ocfl.inventory import Inventory
    w.case(("version", json.dumps(inp, sort_keys=True)))
    inv0 = inp["inv"]
    inv = Inventory(copy.deepcopy(inv0))
    try:
        ver = inv.add_version(state=copy.deepcopy(inv0["versions"][inv0["head"]]["state"]) if inp["carry"] else None)
        exp = {p: d for d, fl in inv0["versions"][inv0["head"]]["state"].items() for p in fl} if inp["carry"] else {}
        base = {p: d for d, fl in inv0["manifest"].items() for p in fl}
        for op in inp["ops"]:
            before = json.loads(json.dumps(inv.data))
            err, r = None, None
            try:
                if op[0] == "add":
                    ok = op[2] not in exp
                    r = ver.add_file(digest=op[1], logical_path=op[2], content_path=op[3], dedupe=op[4])
                else:
                    ok = op[1] in exp
                    r = ver.delete_logical_path(op[1])
            except Exception as e:
                err = e
            if err is not None:
                for x in (before, inv.data):
                    x["versions"][inv.head].setdefault("state", {})
                if ok:
                    w.fail("%r raised %r" % (op, err), inp)
                    return
                if not w.check(before == inv.data, "refused %r changed the inventory" % (op,), inp):
                    return
                continue
            if not w.check(ok, "%r was not refused" % (op,), inp):
                return
            man = [(p, d) for d, fl in inv.data["manifest"].items() for p in fl]
            if op[0] == "add":
                exp[op[2]] = op[1]
                new = {p for p, d in man} - {p for fl in before["manifest"].values() for p in fl}
                if not w.check(new == ({r} if r is not None else set()) and (r is None or dict(man)[r] == op[1]), "%r returned %r, added %r" % (op, r, new), inp):
                    return
            else:
                if not w.check(r == exp.pop(op[1]), "%r returned %r" % (op, r), inp):
                    return
            got = sorted((p, d) for d, fl in inv.data["versions"][inv.head].get("state", {}).items() for p in fl)
            bad = None
            if got != sorted(exp.items()):
                bad = "state %r, expected %r" % (got, exp)
            elif len(man) != len(dict(man)):
                bad = "content path twice"
            elif any(dict(man).get(p) != d for p, d in base.items()):
                bad = "content path of an earlier version changed"
            elif any(inv.data["versions"][v] != inv0["versions"][v] for v in inv0["versions"]):
                bad = "an earlier version changed"
            elif any(not inv.data["manifest"].get(d) for b in inv.data["versions"].values() for d in b.get("state", {})):
                bad = "digest without content path"
            if bad:
                w.fail("after %r: %s" % (op, bad), inp)
                return
    except Exception as e:
        if type(e).__name__ == "Stop":
            raise
        w.fail("raised %r" % (e,), inp)


def gen_version(w):
    rng = w.rng
    o = model.gen_object(rng, nv=rng.choice([1, 2, 3, 9, 10]), case=0, width=rng.choice([0, 0, 3]))
    known = sorted(o.states[-1]) + sorted(o.states[0])
    logical = known[:5] + rng.sample(model.LNAMES, 4)
    digs = sorted(o.inv["manifest"])[:3] + [model.digest(o.alg, b"new%d" % i) for i in range(3)]
    ops = []
    for _ in range(rng.choice([1, 2, 4, 8, 15])):
        if rng.random() < 0.6:
            ops.append(["add", rng.choice(digs), rng.choice(logical), rng.choice([None, None, "x", "y/z", rng.choice(logical)]), rng.random() < 0.6])
        else:
            ops.append(["delete", rng.choice(logical)])
    return {"inv": o.inv, "carry": rng.random() < 0.6, "ops": ops}


def gen(w):
    rng = w.rng
    pool = [b"", b"a", b"b", b"content\n", b"x" * 100]
    names = rng.sample(SRC, rng.randint(3, 8))
    src = {}
    for n in names:
        if model.add_path(src, n):
            src[n] = rng.choice(pool)
    st = {"alg": rng.choice(["sha512", "sha512", "sha256", None]), "cd": rng.choice(["content", "content", None, "data", "c d"]), "dedupe": rng.random() < 0.6, "delta": rng.random() < 0.6,
          "norm": rng.choice(["uri", "uri", "uri", None, "md5"]), "carry": rng.random() < 0.7}
    inv = None
    known = []
    if rng.random() < 0.7:
        o = model.gen_object(rng, nv=rng.choice([1, 2, 3, 9, 10]), case=rng.choice([0, 0, 0, 1]), width=rng.choice([0, 0, 3, 5]))
        inv = o.inv
        known = sorted(o.states[-1]) + sorted(o.states[0])
        # content equal to what is there
        for n in sorted(src):
            if o.content and rng.random() < 0.4:
                src[n] = rng.choice(sorted(o.content.values()))
    logical = rng.sample(model.LNAMES, 5) + known[:4] + ["d/a", "d/b", "x"]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 12, 25])):
        r = rng.random()
        if r < 0.5:
            cp = None
            if rng.random() < 0.3:
                cp = rng.choice(["<PRE>x", "<PRE>x/y", "<PRE>" + rng.choice(SRC), "<USED>", "<HEAD>/x", "v1/content/zz", "<PRE>../x", "<PRE>", "<PRE>a//b", "<PRE>a/", "<PRE>./a", "x", "<PRE>x/..", "<HEAD>/content2/x", "<HEAD>x/content/a", "<PRE>.../x", "", "/"])
            ops.append(["add", rng.choice(sorted(src)), rng.choice(logical), cp])
        elif r < 0.75:
            ops.append(["delete", rng.choice(logical)])
        else:
            ops.append(["rename", rng.choice(logical), rng.choice(logical)])
    return {"src": {k: v.hex() for k, v in src.items()}, "inv": inv, "settings": st, "ops": ops}


def run(w):
    while w.more():
        check(w, gen(w))
        if w.rng.random() < 0.3:
            check_version(w, gen_version(w))


def replay(w, i):
    if "src" in i:
        check(w, i)
    else:
        check_version(w, i)
