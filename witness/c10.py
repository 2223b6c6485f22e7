"""C10: version directory names."""
import re

from common import source_constants, unicode_dec_digits, word, text

RULE = "names v+digits of 0-7 digits incl. every overflow boundary, mutated names, non-ASCII digits, trailing newline; widths -3..9"


def spec_number(s):
    if not re.fullmatch(r"v[0-9]{1,5}", s) or int(s[1:]) == 0:
        return None
    return int(s[1:])


def names(w):
    for width in range(1, 7):
        for n in (0, 1, 2, 8, 9, 10, 11, 98, 99, 100, 101, 998, 999, 1000, 1001, 9998, 9999, 10000, 10001, 99998, 99999, 100000):
            yield "v" + str(n).rjust(width, "0")
    for n in range(1, 1200):
        yield "v%d" % n
        yield "v%04d" % n
    strs, ints = source_constants()
    for i in ints:
        for f in ("v%d", "v%02d", "v%03d", "v%04d", "v%05d", "v0%d"):
            yield f % abs(i)
    for s in strs:
        yield s
    for s in ["", "v", "V1", "1", "v-1", "v+1", "v 1", " v1", "v1 ", "v1\n", "\nv1", "v1\x00", "v1.0", "v1a", "va1", "v1_0", "vv1", "v0x1", "v1e3"]:
        yield s
    for d in unicode_dec_digits():
        yield from ("v" + d, "v1" + d, "v0" + d)
    while True:
        r = w.rng.random()
        if r < 0.5:
            yield "v" + "".join(w.rng.choice("0123456789") for _ in range(w.rng.randint(1, 7)))
        elif r < 0.7:
            yield "v" + str(w.rng.randint(1, 99999)).rjust(w.rng.randint(1, 6), "0")
        elif r < 0.9:
            s = list("v" + str(w.rng.randint(0, 99999)))
            s.insert(w.rng.randint(0, len(s)), w.rng.choice([" ", "\n", "-", "a", "v", "\u0661", ".", "_", "+"]))
            yield "".join(s)
        else:
            yield text(w.rng)


def check_name(w, s):
    from ocfl.object_utils import parse_version_directory, next_version_directory, ObjectException
    want = spec_number(s)
    w.case(("name", s))
    try:
        got = parse_version_directory(s)
    except ObjectException:
        got = None
    except Exception as e:
        w.fail("parse_version_directory(%r) raised %r" % (s, e), {"name": s})
        return
    w.check(got == want and not isinstance(got, bool), "parse_version_directory(%r) gave %r, not %r" % (s, got, want), {"name": s})
    try:
        nxt = next_version_directory(s)
    except ObjectException:
        nxt = None
    except Exception as e:
        w.fail("next_version_directory(%r) raised %r" % (s, e), {"name": s})
        return
    if not re.fullmatch(r"v[0-9]+", s) or int(s[1:]) == 0:
        exp = None
    elif s[1] == "0":
        exp = "v0" + str(int(s[1:]) + 1).rjust(len(s) - 2, "0")
        exp = exp if len(exp) == len(s) else None
    else:
        exp = "v%d" % (int(s[1:]) + 1)
    if want is None and exp is not None:       # more than five digits: not a valid name, either answer will do
        return
    w.check(nxt == exp, "next_version_directory(%r) gave %r, not %r" % (s, nxt, exp), {"name": s})


def check_width(w, n):
    from ocfl.object_utils import first_version_directory, ObjectException
    w.case(("width", n))
    exp = "v1" if n is None else ("v" + "1".rjust(n, "0") if 2 <= n <= 5 else None)
    try:
        got = first_version_directory(n) if n is not None else first_version_directory()
    except ObjectException:
        got = None
    except Exception as e:
        w.fail("first_version_directory(%r) raised %r" % (n, e), {"width": n})
        return
    w.check(got == exp, "first_version_directory(%r) gave %r, not %r" % (n, got, exp), {"width": n})


def check_order(w, vs):
    from ocfl.inventory import Inventory
    w.case(("order", tuple(vs)))
    inv = Inventory()
    inv.data["versions"] = {v: {} for v in vs}
    got = list(inv.version_directories)
    exp = sorted(vs, key=lambda v: int(v[1:]))
    w.check(got == exp, "version_directories of %r gave %r" % (vs, got), {"order": vs})
    nums = list(inv.version_numbers) if hasattr(inv, "version_numbers") else None
    w.check(nums is None or nums == [int(v[1:]) for v in exp], "version_numbers of %r gave %r" % (vs, nums), {"order": vs})


def run(w):
    for n in [None] + list(range(-3, 12)) + [50, 99]:
        check_width(w, n)
    for k in (0, 1, 2, 9, 10, 11, 20, 101, 130, 1001):
        for f in ("v%d", "v%04d"):
            vs = [f % i for i in range(1, k + 1)]
            check_order(w, vs)
            check_order(w, vs[::-1])
            w.rng.shuffle(vs)
            check_order(w, vs)
    for i, s in enumerate(names(w)):
        if not w.more() or i > 60000:
            break
        check_name(w, s)


def replay(w, inp):
    if "name" in inp:
        check_name(w, inp["name"])
    elif "width" in inp:
        check_width(w, inp["width"])
    else:
        check_order(w, inp["order"])


def hint(w, task, inputs):
    for k in ("dirname", "vdir"):
        if k in inputs:
            check_name(w, inputs[k])
    if "zero_padded_width" in inputs:
        check_width(w, inputs["zero_padded_width"])
