"""Shared by C01, C02, C03 (inventory validation)."""
import copy
import json

import model
from common import source_constants

MODES = {"C01": "reject", "C02": "accept", "C03": "total"}


def verdict(inv, **kw):
    """(answer, error count) or (exception, None)"""
    from ocfl.inventory_validator import InventoryValidator
    v = InventoryValidator(**kw.pop("init", {}))
    try:
        r = v.validate(inv, **kw)
    except Exception as e:
        return e, None
    return r, v.log.num_errors


def jsonable(x):
    return json.loads(json.dumps(x))


def check(w, inv, note=""):
    w.case(("inv", note, json.dumps(inv, default=repr)))
    before = copy.deepcopy(inv)
    r, n = verdict(inv)
    inp = {"inv": before}
    if isinstance(r, Exception):
        if w.prop == "C03":
            w.fail("InventoryValidator.validate raised %r" % (r,), inp)
        return
    why = []
    ok = model.inv_ok(before, why)
    if w.prop == "C01" and not ok:
        w.check(r is not True and n > 0, "an inventory that breaks %s is accepted (answer %r, %d errors)" % (why[:3], r, n), inp)
    if w.prop == "C02" and ok:
        w.check(r is True and n == 0, "a conforming inventory is refused (answer %r, %d errors)" % (r, n), inp)
    if w.prop == "C03":
        w.check(type(r) is bool and r == (n == 0), "answer %r with %d errors" % (r, n), inp)


def check_log(w, inv, kw):
    """Verdict relative to the errors of the call when the logger already has errors; other options never crash."""
    from ocfl.inventory_validator import InventoryValidator
    from ocfl.validation_logger import ValidationLogger
    w.case(("log", repr(kw), json.dumps(inv, default=repr)))
    inp = {"inv": inv, "kw": kw}
    log = ValidationLogger()
    log.error("E001a")
    log.error("E002")
    before = log.num_errors
    iv = InventoryValidator(log=log, where="v1", lax_digests=bool(kw.get("lax")), **({"default_spec_version": kw["default"]} if kw.get("default") else {}))
    try:
        r = iv.validate(inv, **({"force_spec_version": kw["force"]} if kw.get("force") else {}))
    except Exception as e:
        if kw.get("lax") and isinstance(e, ValueError):
            return
        w.fail("InventoryValidator.validate (%r) raised %r" % (kw, e), inp)
        return
    w.check(type(r) is bool and r == (log.num_errors == before), "answer %r with %d errors in the call (%r)" % (r, log.num_errors - before, kw), inp)


def sizes(w):
    yield 1, 0
    for n in (2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 1100):
        yield n, 0
        for width in (2, 3, 4, 5, 6, 9, 10):
            if n <= 10 ** (width - 1) - 1 or w.prop != "C02":
                yield n, width


def run(w):
    rng = w.rng
    strs, _ = source_constants(["inventory_validator.py", "digest.py", "w3c_datetime.py", "constants.py"])
    if w.prop in ("C01", "C03"):
        for j in model.JUNK:
            check(w, j, "junk")
    for n, width in sizes(w):
        b = model.big_inv(rng, n, width)
        check(w, b, "size")
        if n <= 101:
            for k in ("v0", "v00", "v%d" % (n + 1), "v%d" % (n + 2), "v01", "v1", "v001", "v" + str(n + 1).rjust(width, "0")):
                c = copy.deepcopy(b)
                if k not in c["versions"]:
                    c["versions"][k] = copy.deepcopy(c["versions"][b["head"]])
                    check(w, c, "extra version")
                    c["head"] = k
                    check(w, c, "extra head")
            for k in rng.sample(list(b["versions"]), min(3, n)):
                c = copy.deepcopy(b)
                del c["versions"][k]
                check(w, c, "gap")
    k = 0
    while w.more() and k < 40000:
        k += 1
        inv = model.gen_inv(rng)
        if k % 3 == 0 or w.prop == "C02":
            check(w, inv, "conforming")
            if w.prop == "C02" and k % 3:
                m = inv
                for _ in range(3):
                    m = model.mutate(rng, m, strs)
                    try:
                        if model.inv_ok(m):
                            check(w, m, "mutated")
                    except (TypeError, RecursionError):
                        break
                continue
        if w.prop == "C02":
            continue
        for _ in range(4):
            m = inv
            for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 3, 5])):
                if isinstance(m, (dict, list)):
                    m = model.mutate(rng, m, strs)
            check(w, m, "mutated")
            if w.prop == "C03" and rng.random() < 0.25:
                check_log(w, m, {"lax": rng.random() < 0.4, "force": rng.choice([None, "1.0", "1.1"]), "default": rng.choice([None, "1.0", "1.1"])})


def replay(w, i):
    if "kw" in i:
        check_log(w, i["inv"], i["kw"])
    else:
        check(w, i["inv"])
