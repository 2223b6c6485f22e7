"""C10: version directory names (ocfl/object_utils.py, Inventory.version_directories)."""
import z3

from pyvc import rx
from pyvc.engine import State
from pyvc.task import task
from pyvc.values import Sym, fresh, S_int, S_dec, DIGITS

D = z3.Range("0", "9")
ZEROS = z3.Plus(z3.Re("0"))
FIVE = z3.Union(*[z3.Concat(*([D] * n)) if n > 1 else D for n in range(1, 6)])


def valid(d):
    """d is the part after 'v': one to five digits that denote a positive number."""
    return z3.And(z3.InRe(d, FIVE), z3.Not(z3.InRe(d, ZEROS)))


def padded(d):
    return z3.PrefixOf(z3.StringVal("0"), d)


def names(c):
    """The two cases of an arbitrary string: 'v' + d, and anything else."""
    d, o = fresh("str", "d"), fresh("str", "other")
    st = State()
    st.assume_(z3.Not(z3.PrefixOf(z3.StringVal("v"), o)))
    return [(State(), z3.Concat(z3.StringVal("v"), d), d), (st, o, None)]


def only(c, raises, exc="ObjectException"):
    for s, e in raises:
        if e.name != exc:
            c.eng.unreachable(s, "only %s is raised (not %s)" % (exc, e.name))


@task("C10", "object_utils.parse_version_directory", native=True)
def parse(c):
    for st, s, d in names(c):
        m = {"dirname": s}
        rets, raises = c.run(st, [Sym("str", s)])
        ok = valid(d) if d is not None else z3.BoolVal(False)
        for s1, v in rets:
            if d is not None:
                c.cover(s1, "accepted")
            c.prove(s1, ok, "accepted names are valid", model_of=m)
            if d is not None:
                c.prove(s1, c.eng.toint(v) == S_int(d), "returns the number", model_of=m)
        for s1, e in raises:
            c.prove(s1, z3.Not(ok), "refused names are invalid", model_of=m)
        only(c, raises)


@task("C10", "object_utils.next_version_directory", native=True)
def nxt(c):
    for st, s, d in names(c):
        m = {"vdir": s}
        rets, raises = c.run(st, [Sym("str", s)])
        if d is None:
            for s1, v in rets:
                c.eng.unreachable(s1, "a name that does not start with v is refused")
            only(c, raises)
            continue
        n = S_int(d)
        room = z3.Length(S_dec(n + 1)) < z3.Length(d)
        for s1, v in rets:
            c.cover(s1, "accepted")
            r = c.eng.tostr(v)
            w = fresh("str", "digits")
            sol = rx.solve_eq(r, [z3.StringVal("v"), w])
            s2 = s1 if sol else s1.assume(r == z3.Concat(z3.StringVal("v"), w))
            w = sol[0][1] if sol else w
            c.prove(s1, z3.PrefixOf(z3.StringVal("v"), r), "result starts with v", model_of=m)
            c.prove(s1, z3.And(z3.InRe(d, DIGITS), z3.Not(z3.InRe(d, ZEROS))), "only well formed names are accepted", model_of=m)
            c.prove(s2.assume(z3.Not(padded(d))), w == S_dec(n + 1), "unpadded: v and the next number", model_of=m)
            s3 = s2.assume(padded(d))
            c.prove(s3, z3.InRe(w, DIGITS), "padded: digits", model_of=m)
            c.prove(s3, S_int(w) == n + 1, "padded: denotes the next number", model_of=m)
            c.prove(s3, z3.Length(w) == z3.Length(d), "padded: same width", model_of=m)
            c.prove(s3, padded(w), "padded: still padded", model_of=m)
        for s1, e in raises:
            c.prove(s1, z3.Not(z3.And(valid(d), z3.Or(z3.Not(padded(d)), room))), "refuses only malformed names and overflow", model_of=m)
        only(c, raises)


@task("C10", "object_utils.first_version_directory", native=True)
def first(c):
    rets, raises = c.run(State(), [None])
    for s1, v in rets:
        c.prove(s1, c.eng.tostr(v) == z3.StringVal("v1"), "unpadded: v1")
    for s1, e in raises:
        c.eng.unreachable(s1, "no exception without width")
    w = fresh("int", "width")
    m = {"zero_padded_width": w}
    rets, raises = c.run(State(), [Sym("int", w)])
    for s1, v in rets:
        c.cover(s1, "width accepted")
        r = c.eng.tostr(v)
        c.prove(s1, z3.And(w >= 2, w <= 5), "width in range", model_of=m)
        for k in range(2, 6):
            c.prove(s1.assume(w == k), r == z3.StringVal("v" + "0" * (k - 1) + "1"), "width %d" % k, model_of=m)
    for s1, e in raises:
        c.prove(s1, z3.Not(z3.And(w >= 2, w <= 5)), "refused only out of range", model_of=m)
    only(c, raises)
