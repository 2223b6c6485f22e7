"""C05: prior version inventories."""
import copy
import json

import model

RULE = "pairs of valid inventories (root, prior): the prior one rendered from an edited copy of the root's history (other algorithm, digest case, paths moved, added, dropped, content paths changed, other versions), compared with an independent oracle"


def render(rng, h, alg, n, cd="content"):
    """h: dict(vdirs, states: [path -> id], content: id -> [content paths], meta, empty: [set of ids])"""
    case = {}

    def dg(i):
        if i not in case:
            case[i] = model.rcase(rng, model.digest(alg, i), h["case"])
        return case[i]
    used = set()
    for s in h["states"][:n]:
        used |= set(s.values())
    for e in h["empty"][:n]:
        used |= e
    inv = {"id": "x:y", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": alg, "head": h["vdirs"][n - 1], "manifest": {}, "versions": {}}
    items = [(i, [p for p in cps if h["vdirs"].index(p.split("/")[0]) < n]) for i, cps in h["content"].items()]
    rng.shuffle(items)
    for i, cps in items:
        if i in used and cps:
            inv["manifest"][dg(i)] = list(cps)
    for v, s, m, e in list(zip(h["vdirs"], h["states"], h["meta"], h["empty"]))[:n]:
        st = {}
        for p, i in s.items():
            st.setdefault(dg(i), []).append(p)
        for i in e:
            st.setdefault(dg(i), [])
        inv["versions"][v] = dict(m, state=st)
    return inv


def fmap(inv, v):
    out = {}
    for d, fl in inv["versions"][v]["state"].items():
        for f in fl:
            out[f] = set(inv["manifest"][d])
    return out


def agree(root, prior):
    if not set(prior["versions"]) < set(root["versions"]):
        return False
    for v in prior["versions"]:
        a, b = fmap(prior, v), fmap(root, v)
        if set(a) != set(b) or any(not a[p] <= b[p] for p in a):
            return False
        if root["digestAlgorithm"] == prior["digestAlgorithm"]:
            if {d.lower() for d in root["versions"][v]["state"]} != {d.lower() for d in prior["versions"][v]["state"]}:
                return False
    return True


def check(w, root, prior, note=""):
    from ocfl.inventory_validator import InventoryValidator
    from ocfl.validation_logger import ValidationLogger
    w.case((note, json.dumps(root), json.dumps(prior)))
    inp = {"root": root, "prior": prior}
    log = ValidationLogger()
    r, p = InventoryValidator(log=log, where="root"), InventoryValidator(log=log, where="prior")
    if not r.validate(copy.deepcopy(root)) or not p.validate(copy.deepcopy(prior)):
        return
    if w.rng.random() < 0.3:
        log.error("E001a")
    n0 = log.num_errors
    exp = agree(root, prior)
    try:
        got = r.validate_as_prior_version(p)
    except Exception as e:
        w.fail("validate_as_prior_version raised %r" % (e,), inp)
        return
    n = log.num_errors - n0
    w.check(got is exp, "validate_as_prior_version gave %r, expected %r %s" % (got, exp, note), inp)
    w.check((n == 0) == exp, "%d errors recorded, expected %s %s" % (n, "none" if exp else "some", note), inp)


def history(rng):
    n = rng.choice([2, 2, 3, 3, 4, 10, 11])
    width = rng.choice([0, 0, 2, 3])
    if width and n > 10 ** (width - 1) - 1:
        width = 3
    vd = ["v" + str(i).rjust(width, "0") for i in range(1, n + 1)]
    pool = [b"", b"a", b"b", b"content", b"z"]
    states, content, st = [], {}, {}
    for v in vd:
        st = model.gen_state(rng, st, pool)
        states.append(dict(st))
        for p, b in st.items():
            if b not in content or (rng.random() < 0.2 and len(content[b]) < 3):
                cp = v + "/content/" + (p if rng.random() < 0.5 else "f%d" % rng.randrange(1000))
                if model.add_path([x for y in content.values() for x in y], cp):
                    content.setdefault(b, []).append(cp)
                elif b not in content:
                    content[b] = [v + "/content/F%d" % len(content)]
    meta = [{"created": "2020-01-01T00:00:00Z", "message": "m", "user": {"name": "u"}} for _ in vd]
    h = {"vdirs": vd, "states": states, "content": content, "meta": meta, "case": rng.choice([0, 0, 1, 2]), "empty": [set() for _ in vd]}
    if rng.random() < 0.15:
        i = rng.choice(sorted(content) or [b""])
        if i in content:
            h["empty"][rng.randrange(n)].add(i)
    return h


def edit(rng, h):
    """One change in a history."""
    r = rng.randrange(12)
    n = len(h["vdirs"])
    k = rng.randrange(n)
    s = h["states"][k]
    ids = sorted(h["content"])
    if r == 0 and s:
        del s[rng.choice(sorted(s))]
    elif r == 1 and ids:
        p = rng.choice(["new", "a/new", "n/e/w"])
        if model.add_path(s, p):
            s[p] = rng.choice(ids)
    elif r in (2, 3) and s and ids:
        s[rng.choice(sorted(s))] = rng.choice(ids)
    elif r == 4 and len(s) > 1:
        a, b = rng.sample(sorted(s), 2)
        s[a], s[b] = s[b], s[a]
    elif r == 5 and s:
        q = rng.choice(sorted(s))
        p = rng.choice(["other", q + "x", q.upper(), q.lower()])
        if model.add_path([x for x in s if x != q], p):
            s[p] = s.pop(q)
    elif r == 6 and ids:
        i = rng.choice(ids)
        v = h["content"][i][0].split("/")[0]
        h["content"][i].append(v + "/content/more%d" % rng.randrange(3))
    elif r == 7 and ids:
        i = rng.choice(ids)
        if len(h["content"][i]) > 1:
            h["content"][i].pop(rng.randrange(len(h["content"][i])))
    elif r == 8 and len(ids) > 1:
        a, b = rng.sample(ids, 2)
        h["content"][a], h["content"][b] = h["content"][b], h["content"][a]
    elif r == 9:
        rng.choice(h["meta"])[rng.choice(["created", "message"])] = "2021-01-01T00:00:00Z"
        h["meta"][k]["user"] = {"name": "other"}
    elif r == 10 and ids:
        i = rng.choice(ids)        # same content under another digest
        j = i + b"'"
        h["content"][j] = h["content"].pop(i)
        for x in h["states"]:
            for p in x:
                if x[p] == i:
                    x[p] = j
        for e in h["empty"]:
            if i in e:
                e.discard(i)
                e.add(j)
    elif r == 11 and ids:
        i = rng.choice(ids)
        v = h["content"][i][0].split("/")[0]
        h["content"][i][0] = v + "/content/elsewhere"


def run(w):
    rng = w.rng
    k = 0
    while w.more() and k < 60000:
        k += 1
        h = history(rng)
        ra = rng.choice(["sha512", "sha256"])
        n = len(h["vdirs"])
        try:
            root = render(rng, h, ra, rng.choice([n, n, n, max(1, n - 1)]))
            for _ in range(6):
                g = copy.deepcopy(h)
                g["case"] = rng.choice([0, 1, 2, h["case"]])
                ne = rng.choice([0, 1, 1, 1, 2])
                for _ in range(ne):
                    edit(rng, g)
                for j in rng.sample(range(1, n + 1), min(2, n)):
                    check(w, root, render(rng, g, rng.choice([ra, ra, "sha512", "sha256"]), j))
                if rng.random() < 0.1:          # other padding
                    g["vdirs"] = ["v" + str(i).rjust(rng.choice([2, 4]), "0") for i in range(1, n + 1)]
                    m = dict(zip(h["vdirs"], g["vdirs"]))
                    g["content"] = {i: [m[p.split("/", 1)[0]] + "/" + p.split("/", 1)[1] for p in c] for i, c in g["content"].items()}
                    if len(set(len(v) for v in g["vdirs"])) == 1:
                        check(w, root, render(rng, g, ra, max(1, n - 1)), "padding")
        except (KeyError, ValueError):
            continue


def replay(w, i):
    check(w, i["root"], i["prior"])
