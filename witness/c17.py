"""C17: every error counts, whatever is logged."""
import json
import os

import model
import objops
from common import text, WEIRD
from objops import Bad

RULE = "every code of the table and unknown codes with present, missing and odd arguments under all switch and language settings; verdicts of inventory, object and root validation of generated (good and damaged) data under every setting of the switches and several languages"
VALS = ["", "x", "%s", "%", "%d %s", None, 5, True, [], ["a", "%"], {"a": "%s"}, "é", "\n", "\u2028", 1.5, -1, (), ("a",)]


def check_log(w, inp):
    from ocfl.validation_logger import ValidationLogger
    w.case(inp)
    kw = {k: v for k, v in inp["init"].items()}
    try:
        log = ValidationLogger(**kw)
        e = wn = m = 0
        for kind, code, args in inp["calls"]:
            (log.error if kind == "e" else log.warning)(code, **args)
            e, wn = e + (kind == "e"), wn + (kind != "e")
            m += (kind == "e" and kw.get("log_errors", True)) or (kind != "e" and kw.get("log_warnings", False))
            if (log.num_errors, log.num_warnings) != (e, wn):
                w.fail("counts are %r after %d errors and %d warnings" % ((log.num_errors, log.num_warnings), e, wn), inp)
                return
            if len(log.messages) != m:
                w.fail("%d messages kept, expected %d" % (len(log.messages), m), inp)
                return
            if code not in log.codes:
                w.fail("code %r not recorded" % code, inp)
                return
        str(log)
    except Exception as x:
        if type(x).__name__ == "Stop":
            raise
        w.fail("logging raised %r" % (x,), inp)


def gen_log(rng, table):
    init = {}
    if rng.random() < 0.5:
        init["log_warnings"] = rng.random() < 0.5
    if rng.random() < 0.5:
        init["log_errors"] = rng.random() < 0.5
    if rng.random() < 0.5:
        init["lang"] = rng.choice(["en", "de", "", "fr", "xx", "EN", None, "params"])
    if rng.random() < 0.3:
        init["spec_version"] = rng.choice(["1.0", "1.1", "", "%s"])
    calls = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        code = rng.choice(sorted(table)) if rng.random() < 0.8 else rng.choice(["E999", "W999", "", "x", "E", "%s", "E001", "E1", "E\u0661\u0661\u0661", "E200", "é", "W", "EE001"])
        names = list(table.get(code, {}).get("params", []))
        args = {}
        for n in names:
            if rng.random() < 0.7:
                args[n] = rng.choice(VALS) if rng.random() < 0.6 else text(rng)
        if rng.random() < 0.2:
            args[rng.choice(["where", "extra", "version", "self_", "args"])] = rng.choice(VALS)
        args.pop("code", None)
        args.pop("is_error", None)
        calls.append([rng.choice("ew"), code, args])
    return {"init": init, "calls": calls}


SETTINGS = [(a, b, c) for a in (False, True) for b in (False, True) for c in ("en", "xx", "de")]


def check_inv(w, inv):
    from ocfl.inventory_validator import InventoryValidator
    from ocfl.validation_logger import ValidationLogger
    w.case(json.dumps(inv, default=repr))
    out = {}
    for a, b, c in SETTINGS:
        log = ValidationLogger(log_warnings=a, log_errors=b, lang=c)
        try:
            r = InventoryValidator(log=log).validate(inv)
        except Exception as e:
            r = "raised " + type(e).__name__
        out[(a, b, c)] = (r, log.num_errors, log.num_warnings)
    x = set(map(repr, out.values()))
    w.check(len(x) == 1, "verdicts differ with the logging settings: %r" % out, {"inv": inv})


def check_obj(w, files, dirs, opts):
    from ocfl.validator import Validator
    inp = {"files": model.enc(files), "dirs": sorted(dirs), "opts": opts}
    w.case(repr(sorted(files.items()))[:3000])
    d = w.mkdir()
    out = {}
    try:
        model.write(d, files, dirs)
        for a, b, c in SETTINGS:
            v = Validator(log_warnings=a, log_errors=b, lang=c, **opts)
            try:
                r = v.validate_object(d)
            except Exception as e:
                r = "raised " + type(e).__name__
            out[(a, b, c)] = (r, v.log.num_errors, v.log.num_warnings)
            w.check(r == (v.log.num_errors == 0), "validate_object gave %r with %d errors" % (r, v.log.num_errors), inp)
            again = v.validate_object(d) if isinstance(r, bool) else r
            w.check(again == r, "validating again with the same validator gives %r, before %r" % (again, r), inp)
        x = set(map(repr, out.values()))
        w.check(len(x) == 1, "verdicts differ with the logging settings: %r" % out, inp)
    finally:
        w.rmdir(d)


def check_root(w, inp):
    from ocfl.storage_root import StorageRoot
    w.case(json.dumps(inp, default=repr)[:3000])
    d = w.mkdir()
    out = {}
    try:
        model.write(d, objops.unhx(inp["files"]), inp["dirs"])
        for a, b, c in SETTINGS:
            s = StorageRoot(root=d)
            try:
                r = s.validate(log_warnings=a, log_errors=b, lang=c)
            except Exception as e:
                r = "raised " + type(e).__name__
            out[(a, b, c)] = (r, s.log and s.log.num_errors, s.num_objects, s.good_objects)
        x = set(map(repr, out.values()))
        w.check(len(x) == 1, "verdicts differ with the logging settings: %r" % out, {"root": inp})
    finally:
        w.rmdir(d)


def damage(rng, o):
    files = dict(o.files)
    r = rng.random()
    if r < 0.3:
        return files
    f = rng.choice(sorted(files))
    if r < 0.6:
        i = rng.randrange(len(o.invs))
        m = model.mutate(rng, o.invs[i])
        try:
            t = json.dumps(m).encode()
        except (ValueError, UnicodeError):
            return files
        for p in ([o.vdirs[i] + "/"] if o.vdirs[i] + "/inventory.json" in files else []) + ([""] if i == len(o.invs) - 1 else []):
            files[p + "inventory.json"] = t
            files[p + "inventory.json." + o.algs[i]] = model.digest(o.algs[i], t).encode() + b" inventory.json\n"
    elif r < 0.75:
        del files[f]
    elif r < 0.9:
        files[f] = files[f] + b"x"
    else:
        files[rng.choice(["extra", o.vdirs[0] + "/extra", "v99/x", "extensions/x", "logs/x"])] = b"x"
    return files


def run(w):
    import c12
    rng = w.rng
    with open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "ocfl/data/validation-errors.json"), encoding="utf-8") as fh:
        table = json.load(fh)
    for code in sorted(table):
        for kind in "ew":
            check_log(w, {"init": {}, "calls": [[kind, code, {}]]})
            check_log(w, {"init": {"lang": "zz", "log_errors": False}, "calls": [[kind, code, {n: "%s" for n in table[code].get("params", [])}]]})
    while w.more():
        r = rng.random()
        if r < 0.5:
            check_log(w, gen_log(rng, table))
        elif r < 0.75:
            m = model.gen_inv(rng)
            for _ in range(rng.choice([0, 1, 1, 2])):
                if isinstance(m, (dict, list)):
                    m = model.mutate(rng, m)
            try:
                m = json.loads(json.dumps(m))
            except (ValueError, UnicodeError):
                continue
            check_inv(w, m)
        elif r < 0.97:
            o = model.gen_object(rng, nv=rng.choice([1, 2, 3]))
            check_obj(w, damage(rng, o), o.dirs, {"check_digests": rng.random() < 0.7})
        else:
            check_root(w, c12.gen(rng))


def replay(w, i):
    if "calls" in i:
        check_log(w, i)
    elif "inv" in i:
        check_inv(w, i["inv"])
    elif "root" in i:
        check_root(w, i["root"])
    else:
        check_obj(w, model.dec(i["files"]), i["dirs"], i["opts"])


def hint(w, task, inputs):
    if isinstance(inputs.get("code"), str):
        for k in "ew":
            check_log(w, {"init": {}, "calls": [[k, inputs["code"], {}]]})
