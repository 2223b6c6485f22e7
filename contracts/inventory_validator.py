"""C01, C02, C03: the inventory validator (ocfl/inventory_validator.py).

Three readings of the code, each with the same loop annotations:
  total  (C03): any JSON value; no exception leaves a function, the result is a bool, and it is True exactly when no error was counted.
  reject (C01): an execution without any error call has seen a valid inventory (an error call ends the execution under study).
  accept (C02): given a valid inventory, no error call can be reached and the result is True.
A caller uses the contract of the functions it calls, in the same reading.
"""
import z3

from pyvc import reg, rx
from pyvc.engine import State, LoopSpec
from pyvc.task import task
from pyvc.builtins_model import s_contains, s_nseg, s_pre, s_parent, S_seg, S_parent
from pyvc.values import (Sym, Ref, Opaque, Union, Exc, Bound, ListObj, AccList, SetObj, MapObj, DictObj, V, fresh, kind, has, get, key, nk, kidx, mem, at, jlen, pos, lit,
                         noneV, boxs, sv, KD, KL, KS, KN, IntS, BoolS, StrS, SetS, SeqS, EMPTY, EXTRA_AXIOMS, Unsupported)

M = "inventory_validator."
C = M + "InventoryValidator."
PROP = {"A": "C02", "B": "C01", "C": "C03"}
WORD = {"A": "accept", "B": "reject", "C": "total"}

dform = z3.Function("digest_form", V, V, BoolS)      # (algorithm, text): the text has the form of a digest of the algorithm   [C14]
known = z3.Function("known_algorithm", V, BoolS)     # the algorithm has a digest form                                          [C14]
norm = z3.Function("normalized", V, V, V)            # (algorithm, digest): normalized digest                                   [C14]
okc = z3.Function("content_path_form", V, V, BoolS)  # (content directory, path)
okl = z3.Function("logical_path_form", V, BoolS)
dt_ok = z3.Function("w3c_datetime", V, BoolS)        # the text is a W3C date and time                                          [C15]
head = z3.Function("str_head", V, V, V)              # text up to the first separator
vname = z3.Function("version_name", IntS, IntS, V)   # (padded width or 0, number)
SL = lit("/")


class Log:
    """The validation log: only the number of errors matters (C17: error() adds one, warning() none, neither raises)."""

    def getattr(self, eng, st, name, node):
        if name == "num_errors":
            return [(st, Sym("int", st.ghost["~errs"]))]
        if name == "num_warnings":
            return [(st, Sym("int", fresh("int", "warnings")))]
        if name in ("error", "warning"):
            return [(st, Bound(self, name))]
        return [(st, Opaque(name))]

    def setattr(self, eng, st, name, v, node):
        if name in ("num_errors", "num_warnings"):
            raise Unsupported("assignment to the counters", node)
        return [st]

    def truth(self, eng, st):
        return [(st, True)]

    def method(self, eng, st, name, a, kw, node):
        if name == "error":
            return error(eng, st, node, a[0] if a and isinstance(a[0], str) else "")
        if name == "warning":
            return [(st, None)]
        raise Unsupported("log method " + name, node)


def error(eng, st, node=None, what=""):
    """One error is counted."""
    if eng.vmode == "A":
        eng.unreachable(st, "no error %s" % what, node)
        return []
    if eng.vmode == "B":
        return []
    s = st.copy()
    s.ghost["~errs"] = st.ghost["~errs"] + 1
    return [(s, None)]


def some_errors(eng, st):
    """Reading C: a called function may count errors."""
    s = st.copy()
    e = fresh("int", "errs")
    s.assume_(e >= st.ghost["~errs"])
    s.ghost["~errs"] = e
    return s


class Form:
    """Regex of an algorithm's digests."""

    def __init__(self, alg):
        self.alg = alg

    def pred(self, eng, st, s, how):
        if how != "fullmatch":
            raise Unsupported("re.%s with a digest regex" % how)
        return dform(self.alg, eng.toV(s))

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def method(self, eng, st, name, a, kw, node):
        if name not in ("fullmatch", "match", "search"):
            raise Unsupported("regex method " + name, node)
        return eng.B.X.rematch(st, self, a[0], [], name, node)


def s_digest_regex(eng, st, env, node):
    """Contract of digest_regex (proved for C14)."""
    t = eng.toV(env["digest_type"])
    y, n = eng.fork(st, known(t))
    if n is not None:
        eng.raise_(n, Exc(ValueError))
    return [(y, Form(t))] if y is not None else []


def s_normalized(eng, st, env, node):
    """Contract of normalized_digest (proved for C14)."""
    d, t = eng.toV(env["digest"]), eng.toV(env["digest_type"])
    st = eng.raise_if(st, kind(d) != KS, AttributeError)
    if st is None:
        return []
    return [(st.assume(kind(norm(t, d)) == KS), Sym("V", norm(t, d)))]


def s_str_to_datetime(eng, st, env, node):
    """Contract of str_to_datetime (proved for C15): ValueError unless the text is a W3C date and time."""
    t = eng.toV(env["s"])
    y, n = eng.fork(st, dt_ok(t))
    if n is not None:
        eng.raise_(n, Exc(ValueError))
    return [(y, Opaque("datetime"))] if y is not None else []


def base(eng, mode):
    eng.vmode = mode
    eng.summaries["digest.digest_regex"] = s_digest_regex
    eng.summaries["digest.normalized_digest"] = s_normalized
    eng.summaries["w3c_datetime.str_to_datetime"] = s_str_to_datetime


def start(c):
    st = State()
    e = fresh("int", "errs0")
    st.assume_(e >= 0)
    st.ghost["~errs"] = e
    return st, e


def facts_algorithms(st):
    for a in ("sha512", "sha256", "sha1", "md5", "blake2b-512", "blake2b-384", "blake2b-256", "blake2b-160"):
        st.fact_(known(lit(a)))


def validator(c, st, lax, alg=None, cd=None, **more):
    """An InventoryValidator in the middle of a validation."""
    alg = fresh("V", "algorithm") if alg is None else alg
    cd = fresh("V", "content_directory") if cd is None else cd
    st.assume_(z3.And(kind(alg) == KS, kind(cd) == KS))
    f = {"log": Log(), "where": Opaque("where"), "lax_digests": lax, "default_spec_version": "1.1", "spec_version": Opaque("spec_version"),
         "digest_algorithm": Sym("V", alg), "content_directory": Sym("V", cd), "id": Opaque("id"), "head": Opaque("head"), "inventory": Opaque("inventory")}
    f.update(more)
    return c.inst(st, "inventory_validator", "InventoryValidator", f), alg, cd


def total(c, rets, raises, e0, what):
    for s, e in raises:
        c.eng.unreachable(s, "%s: no exception" % what)
    return rets


def jsonv(c, st, name):
    return fresh("V", name)


# ---- the meaning of validity ----
def X(*names):
    return z3.Consts(" ".join(names), V)


def vnames_axioms():
    """The names of versions: distinct, not empty."""
    w, n, u, m = z3.Ints("w n u m")
    i = z3.Function("vname_width", V, IntS)
    k = z3.Function("vname_number", V, IntS)
    EXTRA_AXIOMS.append((frozenset(["version_name"]), z3.ForAll([w, n], z3.And(kind(vname(w, n)) == KS, k(vname(w, n)) == n), patterns=[vname(w, n)])))


vnames_axioms()


def good_digests(d, alg):
    """Digest keys of the right form, with lists, unique when normalized."""
    x, y = X("x", "y")
    return [("digests have the form of the algorithm", z3.ForAll([x], z3.Implies(has(d, x), dform(alg, x)), patterns=[has(d, x)])),
            ("digests have lists of paths", z3.ForAll([x], z3.Implies(has(d, x), kind(get(d, x)) == KL), patterns=[has(d, x)])),
            ("digests are unique ignoring case", z3.ForAll([x, y], z3.Implies(z3.And(has(d, x), has(d, y), norm(alg, x) == norm(alg, y)), x == y),
                                                           patterns=[z3.MultiPattern(has(d, x), has(d, y))]))]


def unique_paths(d):
    """No path occurs twice."""
    x, y, p = X("x", "y", "p")
    i, j = z3.Ints("i j")
    return [("no path under two digests", z3.ForAll([x, y, p], z3.Implies(z3.And(has(d, x), has(d, y), mem(get(d, x), p), mem(get(d, y), p)), x == y),
                                                    patterns=[z3.MultiPattern(has(d, x), has(d, y), mem(get(d, x), p), mem(get(d, y), p))])),
            ("no path twice in a list", z3.ForAll([x, i, j], z3.Implies(z3.And(has(d, x), 0 <= i, i < jlen(get(d, x)), 0 <= j, j < jlen(get(d, x)), at(get(d, x), i) == at(get(d, x), j)), i == j),
                                                  patterns=[z3.MultiPattern(has(d, x), at(get(d, x), i), at(get(d, x), j))]))]


def paths_are(d, f):
    x, p = X("x", "p")
    return [("paths are strings", z3.ForAll([x, p], z3.Implies(z3.And(has(d, x), mem(get(d, x), p)), kind(p) == KS), patterns=[z3.MultiPattern(has(d, x), mem(get(d, x), p))])),
            ("paths are well formed", z3.ForAll([x, p], z3.Implies(z3.And(has(d, x), mem(get(d, x), p)), f(p)), patterns=[z3.MultiPattern(has(d, x), mem(get(d, x), p))]))]


def in_block(d, p):
    """p occurs in the block d."""
    x = z3.Const("x", V)
    return z3.Exists([x], z3.And(has(d, x), mem(get(d, x), p)))


def no_conflict(d):
    """No path is a directory of another."""
    x, y, p, q = X("x", "y", "p", "q")
    n = z3.Int("n")
    return [("no path is also a directory", z3.ForAll([x, y, p, q, n], z3.Implies(z3.And(has(d, x), mem(get(d, x), p), has(d, y), mem(get(d, y), q), 1 <= n, n < s_nseg(q, SL)),
                                                                                 s_pre(q, SL, n) != p),
                                                      patterns=[z3.MultiPattern(has(d, x), mem(get(d, x), p), has(d, y), mem(get(d, y), q), s_pre(q, SL, n))]))]


def manifest_valid(m, alg, cd):
    return ([("manifest is an object", kind(m) == KD)] + good_digests(m, alg) + paths_are(m, lambda p: okc(cd, p)) + unique_paths(m) + no_conflict(m))


# ---- parent directories ----
def parent_axioms():
    q = z3.Const("q", V)
    n = z3.Int("n")
    ax = lambda syms, f: EXTRA_AXIOMS.append((frozenset(syms), f))
    ax(["str_nsegments"], z3.ForAll([q], s_nseg(q, SL) >= 1, patterns=[s_nseg(q, SL)]))
    ax(["str_prefix_join"], z3.ForAll([q, n], kind(s_pre(q, SL, n)) == KS, patterns=[s_pre(q, SL, n)]))
    two = z3.Implies(z3.And(s_nseg(q, SL) >= 2, 1 <= n, n <= s_nseg(q, SL) - 1), s_pre(s_parent(q, SL), SL, n) == s_pre(q, SL, n))
    ax(["str_parent"], z3.ForAll([q], z3.And(z3.Implies(s_nseg(q, SL) >= 2, s_nseg(s_parent(q, SL), SL) == s_nseg(q, SL) - 1),
                                             z3.Implies(s_nseg(q, SL) == 1, z3.And(s_parent(q, SL) == lit(""), s_nseg(lit(""), SL) == 1, s_pre(lit(""), SL, 1) == lit("")))),
                                 patterns=[s_parent(q, SL)]))
    ax(["str_parent", "str_prefix_join"], z3.ForAll([q, n], two, patterns=[s_pre(s_parent(q, SL), SL, n)]))
    ax(["str_parent", "str_prefix_join"], z3.ForAll([q, n], two, patterns=[z3.MultiPattern(s_parent(q, SL), s_pre(q, SL, n))]))


parent_axioms()


def with_parents(st, dirs):
    """The set of the prefixes of the given directories."""
    R = fresh(SetS, "with_parents")
    i = str(R).replace("!", "_")
    dw, nw = z3.Function("dir_" + i, V, V), z3.Function("len_" + i, V, IntS)
    x, d, n = z3.Const("x", V), z3.Const("d", V), z3.Int("n")
    st.fact_(z3.ForAll([x], z3.Implies(R[x], z3.And(dirs[dw(x)], 1 <= nw(x), nw(x) <= s_nseg(dw(x), SL), x == s_pre(dw(x), SL, nw(x)), kind(x) == KS)), patterns=[R[x]]))
    st.fact_(z3.ForAll([d, n], z3.Implies(z3.And(dirs[d], 1 <= n, n <= s_nseg(d, SL)), R[s_pre(d, SL, n)]), patterns=[z3.MultiPattern(dirs[d], s_pre(d, SL, n))]))
    return R


def s_with_parents(eng, st, env, node):
    d = eng.B.anyset(st, env["directories"])
    if d is None:
        raise Unsupported("directories", node)
    st = st.copy()
    n = fresh(SetS, "dirs")
    st.fact_(n == d)
    return [(st, eng.alloc(st, SetObj(with_parents(st, n))))]


def elems_inv(what):
    """The loop over the directories: what has been added are prefixes of the directories so far, and all of them."""
    def inv(l):
        s = l.the(SetObj)
        x, n, j = z3.Const("x", V), z3.Int("n"), z3.Int("j")
        e = l.view_seq
        b = s.births[0] if s.births else z3.K(V, z3.IntVal(-1))
        return [("only prefixes of the directories so far", z3.ForAll([x], z3.Implies(s.arr[x], z3.Exists([j, n], z3.And(0 <= j, j < l.i, 1 <= n, n <= s_nseg(e(j), SL), x == s_pre(e(j), SL, n)))),
                                                                      patterns=[s.arr[x]])),
                ("every prefix of the directories so far", z3.ForAll([j, n], z3.Implies(z3.And(0 <= j, j < l.i, 1 <= n, n <= s_nseg(e(j), SL)), s.arr[s_pre(e(j), SL, n)]),
                                                                     patterns=[z3.MultiPattern(e(j), s_pre(e(j), SL, n))]))]
    return inv


def prefixes_inv(l):
    """The loop over the prefixes of one directory: adds exactly those."""
    s, s0, d = l.the(SetObj), None, l.v("directory")
    for o in l.modobjs:
        if isinstance(l.entry.heap.get(o), SetObj):
            s0 = l.entry.heap[o]
    x, n = z3.Const("x", V), z3.Int("n")
    return [("only prefixes of this directory are added", z3.ForAll([x], z3.Implies(s.arr[x], z3.Or(s0.arr[x], z3.Exists([n], z3.And(1 <= n, n <= l.i, x == s_pre(d, SL, n))))), patterns=[s.arr[x]])),
            ("nothing is removed", z3.ForAll([x], z3.Implies(s0.arr[x], s.arr[x]), patterns=[s0.arr[x]] if s0.arr.decl().kind() == z3.Z3_OP_UNINTERPRETED else [s.arr[x]])),
            ("the prefixes so far are added", z3.ForAll([n], z3.Implies(z3.And(1 <= n, n <= l.i), s.arr[s_pre(d, SL, n)]), patterns=[s_pre(d, SL, n)]))]


@task(["C01", "C02", "C03"], M + "_with_parent_directories")
def with_parent_directories(c):
    base(c.eng, "C")
    st, e0 = start(c)
    D = fresh(SetS, "directories")
    x = z3.Const("x", V)
    st.assume_(z3.ForAll([x], z3.Implies(D[x], kind(x) == KS), patterns=[D[x]]))

    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, elems_inv(0), depth=0), LoopSpec(lambda t: True, prefixes_inv, depth=1)]
    rets, raises = c.run(st, [c.eng.alloc(st, SetObj(D))])
    total(c, rets, raises, e0, "parents")
    for s, v in rets:
        c.cover(s, "parents")
        arr = c.eng.as_setarr(s.heap[v.oid])
        x, d = fresh("V", "x"), fresh("V", "d")
        n, dd, nn = fresh("int", "n"), z3.Const("dd", V), z3.Int("nn")
        c.prove(s, z3.Implies(arr[x], kind(x) == KS), "only strings")
        c.prove(s.assume(arr[x]), z3.Exists([dd, nn], z3.And(D[dd], 1 <= nn, nn <= s_nseg(dd, SL), x == s_pre(dd, SL, nn))), "only prefixes of the directories")
        c.prove(s.assume(z3.And(D[d], 1 <= n, n <= s_nseg(d, SL))), arr[s_pre(d, SL, n)], "every prefix of every directory")


# ---- forms of paths (texts are modelled as strings here) ----
BADSEG = ("", ".", "..")


from pyvc.builtins_model import PLAIN_PATH as PATH, _notslash     # noqa: E402
DIGIT = z3.Range("0", "9")


def strset(c, st, name):
    a = fresh(SetS, name)
    x = z3.Const("x", V)
    st.assume_(z3.ForAll([x], z3.Implies(a[x], kind(x) == KS), patterns=[a[x]]))
    return a, c.eng.alloc(st, SetObj(a))


def check_logical_path(mode):
    def run(c):
        base(c.eng, mode)
        st, e0 = start(c)
        me, alg, cd = validator(c, st, False)
        p = fresh("str", "path")
        P, rp = strset(c, st, "paths")
        D, rd = strset(c, st, "directories")
        if mode == "A":
            st.assume_(z3.InRe(p, PATH))
        c.eng.loops[c.t.func] = [LoopSpec(lambda t: True)]
        rets, raises = c.run(st, [Sym("str", p), Opaque("version"), rp, rd], self_=me)
        total(c, rets, raises, e0, "logical path")
        for s, v in rets:
            if not c.eng.feasible(s):
                continue
            c.cover(s, "logical path")
            P2, D2 = s.heap[rp.oid].arr, s.heap[rd.oid].arr
            x = fresh("V", "x")
            if mode == "B":
                c.prove(s, z3.InRe(p, PATH), "only well-formed paths are without error")
            if mode in "AB":
                c.prove(s, P2[x] == z3.Or(P[x], x == boxs(p)), "the path is recorded, and nothing else")
                c.prove(s, D2[x] == z3.Or(D[x], x == boxs(S_parent(p, z3.StringVal("/")))), "its directory is recorded, and nothing else")
            else:
                c.prove(s, z3.Implies(s.ghost["~errs"] == e0, z3.InRe(p, PATH)), "an ill-formed path is an error")
                c.prove(s, z3.Implies(P2[x], kind(x) == KS), "only strings are recorded")
                c.prove(s, z3.Implies(D2[x], kind(x) == KS), "only strings are recorded as directories")
    return run


for _m in "ABC":
    task(PROP[_m], C + "_check_logical_path", clause=WORD[_m], native=True)(check_logical_path(_m))


def content_language(v, cd):
    return z3.Concat(v, z3.StringVal("/"), cd, z3.StringVal("/"))


def check_content_path(mode):
    """Any path is a/b/r with a and b without slash, or has fewer than two slashes."""
    def run(c):
        base(c.eng, mode)
        for shape in ("a/b/r", "other"):
            if shape == "other" and mode == "A":
                continue
            st, e0 = start(c)
            cds = fresh("str", "content_directory")
            st.assume_(z3.InRe(cds, z3.Star(_notslash)))
            me, alg, cd = validator(c, st, False, cd=boxs(cds), content_directory=Sym("str", cds))
            P, rp = strset(c, st, "paths")
            D, rd = strset(c, st, "directories")
            if shape == "other":
                p = fresh("str", "path")
                st.assume_(z3.InRe(p, z3.Concat(z3.Star(_notslash), z3.Option(z3.Concat(z3.Re("/"), z3.Star(_notslash))))))
                good = z3.BoolVal(False)
            else:
                v, b, rest = fresh("str", "vdir"), fresh("str", "dir"), fresh("str", "rest")
                st.assume_(z3.InRe(v, z3.Star(_notslash)))
                st.assume_(z3.InRe(b, z3.Star(_notslash)))
                p = z3.Concat(v, z3.StringVal("/"), b, z3.StringVal("/"), rest)
                good = z3.And(b == cds, z3.InRe(rest, PATH))
            if mode == "A":
                st.assume_(z3.And(z3.InRe(v, z3.Concat(z3.Re("v"), z3.Plus(DIGIT))), b == cds, z3.InRe(b, z3.Plus(_notslash)), z3.InRe(rest, PATH)))
                st.assume_(z3.Not(P[boxs(p)]))
            c.eng.loops[c.t.func] = [LoopSpec(lambda t: True)]
            rets, raises = c.run(st, [Sym("str", p), rp, rd], self_=me)
            total(c, rets, raises, e0, "content path")
            for s0, v0 in rets:
                for s, r in c.eng.split(s0, v0):
                    c.cover(s, "content path")
                    P2, D2 = s.heap[rp.oid].arr, s.heap[rd.oid].arr
                    x = fresh("V", "x")
                    if mode == "C":
                        c.prove(s, (s.ghost["~errs"] == e0) == z3.BoolVal(r is True), "an error exactly when the path is not accepted")
                        c.prove(s, z3.Implies(P2[x], kind(x) == KS), "only strings are recorded")
                        c.prove(s, z3.Implies(D2[x], kind(x) == KS), "only strings are recorded as directories")
                    else:
                        c.prove(s, z3.BoolVal(r is True), "the path is accepted")
                        c.prove(s, P2[x] == z3.Or(P[x], x == boxs(p)), "the path is recorded, and nothing else")
                        c.prove(s, D2[x] == z3.Or(D[x], x == boxs(S_parent(p, z3.StringVal("/")))), "its directory is recorded, and nothing else")
                    if mode == "B":
                        c.prove(s, z3.Not(P[boxs(p)]), "the path was not there")
                        c.prove(s, good, "only well-formed paths are accepted")
                    if mode == "C":
                        c.prove(s, z3.Implies(z3.BoolVal(r is True), z3.Contains(p, z3.StringVal("/"))), "accepted paths contain a slash")
    return run


for _m in "ABC":
    task(PROP[_m], C + "_check_content_path", clause=WORD[_m], native=True)(check_content_path(_m))


# ---- contracts of the path checks, as seen by their callers ----
def is_str(eng, st, v):
    """Preconditions of the path checks: the path is a string."""
    return eng.raise_if(st, kind(eng.toV(v)) != KS, AttributeError)


def add_to(eng, st, r, x):
    st.heap[r.oid] = eng.B.addto(st.heap[r.oid], x, st.ghost.get("loopidx", ()))


def s_check_content_path(eng, st, env, node):
    """Contract of _check_content_path."""
    me = st.heap[env["self"].oid]
    p, cd = eng.toV(env["path"]), eng.toV(me.fields["content_directory"])
    P, D = env["content_paths"], env["content_directories"]
    out = []
    st = is_str(eng, st, env["path"])
    if st is None:
        return []
    seen = eng.as_setarr(st.heap[P.oid])[p]
    good = z3.And(okc(cd, p), z3.Not(seen))
    if eng.vmode == "A":
        eng.prove(st, good, "a content path of a valid inventory is accepted", node)
    y = st.assume(good if eng.vmode == "B" else z3.Not(seen))
    y.assume_(z3.And(s_contains(p, SL), kind(s_parent(p, SL)) == KS))
    add_to(eng, y, P, p)
    add_to(eng, y, D, s_parent(p, SL))
    out.append((y, True))
    if eng.vmode == "C":
        n = some_errors(eng, st)
        n.assume_(n.ghost["~errs"] > st.ghost["~errs"])
        out.append((n, False))
    return out


def s_check_logical_path(eng, st, env, node):
    """Contract of _check_logical_path."""
    p = eng.toV(env["path"])
    P, D = env["logical_paths"], env["logical_directories"]
    st = is_str(eng, st, env["path"])
    if st is None:
        return []
    if eng.vmode == "A":
        eng.prove(st, okl(p), "a logical path of a valid inventory is accepted", node)
    y = st.assume(okl(p)) if eng.vmode == "B" else st.copy()
    y.assume_(kind(s_parent(p, SL)) == KS)
    add_to(eng, y, P, p)
    add_to(eng, y, D, s_parent(p, SL))
    out = [(y, None)]
    if eng.vmode == "C":
        n = some_errors(eng, st)
        n.assume_(n.ghost["~errs"] > st.ghost["~errs"])
        out.append((n, None))
    return out


def path_checks(eng, mode):
    base(eng, mode)
    eng.summaries[C + "_check_content_path"] = s_check_content_path
    eng.summaries[C + "_check_logical_path"] = s_check_logical_path
    eng.summaries[M + "_with_parent_directories"] = s_with_parents


# ---- the manifest ----
def FA(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)


def manifest_inv(m, alg, cd, mode):
    """What is known after the first o digests (and i paths of digest o)."""
    def facts(l, o, i, inner):
        x, p, q, d = X("x", "p", "q", "d")
        j, k = z3.Ints("j k")
        P, MF, CF, D = l.arr("content_paths"), l.arr("manifest_files"), l.arr("manifest_files_correct_format"), l.arr("content_directories")
        mv = l.val("manifest_files")
        if mode == "C":
            return [("manifest files are strings", FA([p], z3.Implies(MF[p], kind(p) == KS), MF[p])),
                    ("their digests are strings", FA([p], z3.Implies(MF[p], kind(mv[p]) == KS), MF[p])),
                    ("content paths are strings", FA([p], z3.Implies(P[p], kind(p) == KS), P[p])),
                    ("directories are strings", FA([p], z3.Implies(D[p], kind(p) == KS), D[p])),
                    ("accepted paths have a slash", FA([p], z3.Implies(CF[p], z3.And(kind(p) == KS, s_contains(p, SL))), CF[p]))]
        b0, b1 = l.birth("content_paths", 0), l.birth("content_paths", 1)
        lst = lambda j: get(m, key(m, j))
        before = z3.Or(b0[p] < o, z3.And(b0[p] == o, b1[p] < i)) if inner else b0[p] < o
        done = z3.Or(j < o, z3.And(j == o, k < i)) if inner else j < o
        U = l.arr("unnormalized_digests")
        md, bm = l.arr("manifest_digests"), l.birth("manifest_digests", 0)
        top = o + 1 if inner else o
        return [("a path comes from the list of a digest", FA([p], z3.Implies(P[p], z3.And(0 <= b0[p], before, 0 <= b1[p], b1[p] < jlen(lst(b0[p])), at(lst(b0[p]), b1[p]) == p)), P[p])),
                ("a path is recorded under its digest", FA([p], z3.Implies(P[p], z3.And(MF[p], mv[p] == norm(alg, key(m, b0[p])), CF[p])), P[p])),
                ("paths are of the right form", FA([p], z3.Implies(P[p], z3.And(kind(p) == KS, okc(cd, p), s_contains(p, SL))), P[p])),
                ("only accepted paths are recorded", FA([p], z3.Implies(MF[p], P[p]), MF[p])),
                ("only accepted paths are listed", FA([p], z3.Implies(CF[p], P[p]), CF[p])),
                ("every path so far is there, once", FA([j, k], z3.Implies(z3.And(0 <= j, done, 0 <= k, k < jlen(lst(j))), z3.And(P[at(lst(j), k)], b0[at(lst(j), k)] == j, b1[at(lst(j), k)] == k)),
                                                       at(lst(j), k))),
                ("directories are those of the paths", FA([d], z3.Implies(D[d], z3.Exists([q], z3.And(P[q], d == s_parent(q, SL)))), D[d])),
                ("every path has its directory", FA([q], z3.Implies(P[q], D[s_parent(q, SL)]), P[q])),
                ("digests so far are remembered", FA([j], z3.Implies(z3.And(0 <= j, j < top), z3.And(U[key(m, j)], md[norm(alg, key(m, j))], bm[norm(alg, key(m, j))] == j)), key(m, j))),
                ("only these digests", FA([x], z3.Implies(md[x], z3.And(0 <= bm[x], bm[x] < top, norm(alg, key(m, bm[x])) == x)), md[x])),
                ("only these digests as they are", FA([x], z3.Implies(U[x], has(m, x)), U[x])),
                ("the digests so far are well formed", FA([j], z3.Implies(z3.And(0 <= j, j < top), z3.And(dform(alg, key(m, j)), kind(lst(j)) == KL)), key(m, j)))]

    def outer(l):
        if not (z3.is_expr(l.it) and l.it.eq(m)):
            return []
        return facts(l, l.i, None, False)

    def inner(l):
        return facts(l, l.outer[-1], l.i, True)
    return [LoopSpec(lambda t: True, outer, depth=0), LoopSpec(lambda t: True, inner, depth=1)]


def manifest_result(eng, st, m, alg, v):
    """What the validation of a valid manifest returns: files with their digests, the list of files, the digests."""
    files, good, digests = v
    x, p, q = X("x", "p", "q")
    f, g, u = st.heap[files.oid], eng.as_setarr(st.heap[good.oid]), eng.as_setarr(st.heap[digests.oid])
    if isinstance(f, DictObj):
        f = eng.B.mapobj(st, f)
    return [("the files are those of the manifest", [p], f.dom[p], in_block(m, p)),
            ("all files are accepted", [p], g[p], in_block(m, p)),
            ("every file of the manifest is there", [x, p], z3.And(has(m, x), mem(get(m, x), p)), z3.And(f.dom[p], g[p], f.val[p] == norm(alg, x))),
            ("digests of files are digests of the manifest with files", [p], f.dom[p], z3.Exists([x], z3.And(has(m, x), mem(get(m, x), p), f.val[p] == norm(alg, x)))),
            ("digests of the manifest with files are digests of files", [x, p], z3.And(has(m, x), mem(get(m, x), p)), z3.Exists([q], z3.And(f.dom[q], f.val[q] == norm(alg, x)))),
            ("the files have strings as digests", [p], f.dom[p], z3.And(kind(p) == KS, kind(f.val[p]) == KS)),
            ("the files have a slash", [p], g[p], s_contains(p, SL)),
            ("the digests are those of the manifest", [x], u[x], has(m, x)),
            ("every digest is there", [x], has(m, x), u[x])]


def validate_manifest(mode, lax=False):
    def run(c):
        path_checks(c.eng, mode)
        st, e0 = start(c)
        me, alg, cd = validator(c, st, lax)
        m = fresh("V", "manifest")
        if not lax:
            st.assume_(known(alg))
        x = z3.Const("x", V)
        if mode == "A":
            for _, f in manifest_valid(m, alg, cd):
                st.assume_(f)
            st.fact_(z3.ForAll([x], z3.Implies(okc(cd, x), z3.And(kind(x) == KS, x != lit(""))), patterns=[okc(cd, x)]))
        c.eng.loops[c.t.func] = manifest_inv(m, alg, cd, mode)
        rets, raises = c.run(st, [Sym("V", m)], self_=me)
        total(c, rets, raises, e0, "manifest")
        for s, v in rets:
            c.cover(s, "manifest")
            for s1, v1 in split_tuple(c.eng, s, v):
                post(c, s1, v1, m, alg, cd, mode)
    return run


def split_tuple(eng, s, v):
    out = []
    for s1, v1 in eng.split(s, v):
        cur = [(s1, [])]
        for x in v1:
            cur = [(s3, a + [y]) for s2, a in cur for s3, y in eng.split(s2, x)]
        out += [(s2, tuple(a)) for s2, a in cur]
    return out


def post(c, s, v, m, alg, cd, mode):
    files, good, digests = v
    p = fresh("V", "p")
    if mode == "C":
        f = s.heap[files.oid]
        f = c.eng.B.mapobj(s, f) if isinstance(f, DictObj) else f
        g = c.eng.as_setarr(s.heap[good.oid])
        c.prove(s, z3.Implies(f.dom[p], z3.And(kind(p) == KS, kind(f.val[p]) == KS)), "manifest files and their digests are strings")
        c.prove(s, z3.Implies(g[p], z3.And(kind(p) == KS, s_contains(p, SL))), "accepted paths have a slash")
        return
    if mode == "B":
        for nm, f in manifest_valid(m, alg, cd):
            c.prove(s, f, "without error: " + nm)
    for nm, vs, a, b in manifest_result(c.eng, s, m, alg, v):
        c.prove(s, z3.ForAll(vs, z3.Implies(a, b)), nm)


for _m in "ABC":
    task(PROP[_m], C + "_validate_manifest", clause=WORD[_m])(validate_manifest(_m))
task("C03", C + "_validate_manifest", clause="total, any digest algorithm")(validate_manifest("C", True))


# ---- _digest_regex ----
def digest_regex(mode, lax):
    def run(c):
        base(c.eng, mode)
        st, e0 = start(c)
        me, alg, cd = validator(c, st, lax)
        if mode == "A":
            st.assume_(known(alg))
        rets, raises = c.run(st, [], self_=me)
        total(c, rets, raises, e0, "regex")
        for s, v in rets:
            for s1, v1 in c.eng.split(s, v):
                c.cover(s1, "regex")
                if isinstance(v1, Form):
                    c.prove(s1, v1.alg == alg, "the form is that of the inventory's algorithm")
                elif lax:
                    c.prove(s1, z3.And(z3.Not(known(alg)), z3.BoolVal(v1 == "^.*$")), "any text for an unknown algorithm")
                elif mode == "C":
                    c.prove(s1, s1.ghost["~errs"] > e0, "an unknown algorithm is an error")
                else:
                    c.prove(s1, z3.BoolVal(False), "the form of the algorithm is used")
    return run


for _m in "ABC":
    task(PROP[_m], C + "_digest_regex", clause=WORD[_m])(digest_regex(_m, False))
task("C03", C + "_digest_regex", clause="total, any digest algorithm")(digest_regex("C", True))


# ---- fixity ----
def fixity_valid(f, MF):
    """Fixity blocks of known algorithms, with well-formed unique digests and files of the manifest."""
    a, x, y, p = X("a", "x", "y", "p")
    b = get(f, a)
    return [("fixity is an object", kind(f) == KD),
            ("fixity algorithms are known", FA([a], z3.Implies(has(f, a), known(a)), has(f, a))),
            ("fixity blocks are objects", FA([a], z3.Implies(has(f, a), kind(b) == KD), has(f, a))),
            ("fixity digests have the form of their algorithm", FA([a, x], z3.Implies(z3.And(has(f, a), has(b, x)), dform(a, x)), z3.MultiPattern(has(f, a), has(b, x)))),
            ("fixity digests have lists", FA([a, x], z3.Implies(z3.And(has(f, a), has(b, x)), kind(get(b, x)) == KL), z3.MultiPattern(has(f, a), has(b, x)))),
            ("fixity digests are unique ignoring case", FA([a, x, y], z3.Implies(z3.And(has(f, a), has(b, x), has(b, y), norm(a, x) == norm(a, y)), x == y),
                                                           z3.MultiPattern(has(f, a), has(b, x), has(b, y)))),
            ("fixity names only manifest files", FA([a, x, p], z3.Implies(z3.And(has(f, a), has(b, x), mem(get(b, x), p)), z3.And(kind(p) == KS, MF[p])),
                                                    z3.MultiPattern(has(f, a), has(b, x), mem(get(b, x), p))))]


def fixity_loops(f, MF, mode):
    if mode == "C":
        return [LoopSpec(lambda t: True)]
    a, x, y, p = X("a", "x", "y", "p")
    j, k = z3.Ints("j k")

    def upto(l):
        a = key(f, j)
        b = get(f, a)
        g = lambda q: z3.And(0 <= j, j < l.i, q)
        return [("known so far", FA([j], z3.Implies(g(True), z3.And(known(a), kind(b) == KD)), a)),
                ("forms so far", FA([j, x], z3.Implies(g(has(b, x)), z3.And(dform(a, x), kind(get(b, x)) == KL)), z3.MultiPattern(a, has(b, x)))),
                ("unique so far", FA([j, x, y], z3.Implies(g(z3.And(has(b, x), has(b, y), norm(a, x) == norm(a, y))), x == y), z3.MultiPattern(a, has(b, x), has(b, y)))),
                ("files so far", FA([j, x, p], z3.Implies(g(z3.And(has(b, x), mem(get(b, x), p))), z3.And(kind(p) == KS, MF[p])), z3.MultiPattern(a, has(b, x), mem(get(b, x), p))))]

    def digests(l):
        a = key(f, l.outer[-1])
        b = get(f, a)
        s = l.the(SetObj)
        bs = s.births[1] if len(s.births) > 1 else z3.K(V, z3.IntVal(-1))
        g = lambda q: z3.And(0 <= j, j < l.i, q)
        d = key(b, j)
        return [("forms of these so far", FA([j], z3.Implies(g(True), z3.And(dform(a, d), kind(get(b, d)) == KL)), d)),
                ("digests so far are remembered", FA([j], z3.Implies(g(True), z3.And(s.arr[norm(a, d)], bs[norm(a, d)] == j)), d)),
                ("only these digests", FA([x], z3.Implies(s.arr[x], z3.And(0 <= bs[x], bs[x] < l.i, norm(a, key(b, bs[x])) == x)), s.arr[x])),
                ("files of these so far", FA([j, p], z3.Implies(g(mem(get(b, d), p)), z3.And(kind(p) == KS, MF[p])), z3.MultiPattern(d, mem(get(b, d), p))))]

    def files(l):
        b = get(f, key(f, l.outer[-2]))
        q = get(b, key(b, l.outer[-1]))
        return [("files of this so far", FA([k], z3.Implies(z3.And(0 <= k, k < l.i), z3.And(kind(at(q, k)) == KS, MF[at(q, k)])), at(q, k)))]
    return [LoopSpec(lambda t: True, upto, depth=0), LoopSpec(lambda t: True, digests, depth=1), LoopSpec(lambda t: True, files, depth=2)]


def map_of(eng, st, name):
    """A map from strings to strings."""
    d, v = fresh(SetS, name), fresh(z3.ArraySort(V, V), name + "_digest")
    x = z3.Const("x", V)
    st.fact_(z3.ForAll([x], z3.Implies(d[x], z3.And(kind(x) == KS, kind(v[x]) == KS)), patterns=[d[x]]))
    return d, v, eng.alloc(st, MapObj(d, v))


def validate_fixity(mode, lax=False):
    def run(c):
        base(c.eng, mode)
        for nofiles in ((False, True) if mode == "C" else (False,)):
            st, e0 = start(c)
            me, alg, cd = validator(c, st, lax, spec_version=Sym("V", fresh("V", "spec_version")))
            MF, _, mf = map_of(c.eng, st, "manifest_files")
            f = fresh("V", "fixity")
            if mode == "A":
                for _, g in fixity_valid(f, MF):
                    st.assume_(g)
            c.eng.loops[c.t.func] = fixity_loops(f, MF, mode)
            rets, raises = c.run(st, [Sym("V", f), None if nofiles else mf], self_=me)
            total(c, rets, raises, e0, "fixity")
            for s, v in rets:
                c.cover(s, "fixity")
                if mode == "B":
                    for nm, g in fixity_valid(f, MF):
                        c.prove(s, g, "without error: " + nm)
    return run


for _m in "ABC":
    task(PROP[_m], C + "_validate_fixity", clause=WORD[_m])(validate_fixity(_m))
task("C03", C + "_validate_fixity", clause="total, any digest algorithm")(validate_fixity("C", True))


# ---- the version sequence ----
vwidth = z3.Function("vname_width", V, IntS)
vnum = z3.Function("vname_number", V, IntS)
miss = z3.Function("missing_version", V, IntS, IntS)
BIG = 999999


def limit(w):
    """Highest version number for a padded width."""
    return BIG if w == 0 else 10 ** (w - 1) - 1


def version_axioms():
    n, w = z3.Ints("n w")
    d, x = X("d", "x")
    for i in [0] + list(range(2, 11)):
        f = z3.Function("fmt:v%%0%dd" % i if i else "fmt:v%d", IntS, V)
        EXTRA_AXIOMS.append((frozenset([f.name()]), z3.ForAll([n], z3.And(f(n) == vname(i, n), kind(f(n)) == KS), patterns=[f(n)])))
        EXTRA_AXIOMS.append((frozenset([f.name()]), z3.ForAll([n], z3.And(f(n) == vname(i, n), kind(f(n)) == KS), patterns=[vname(i, n)])))
        for k in range(1, 10):
            t = lit("v%d" % k if i == 0 else "v%0*d" % (i, k))
            EXTRA_AXIOMS.append((frozenset([t.decl().name()]), z3.And(t == vname(i, k), vwidth(t) == i, vnum(t) == k)))
        EXTRA_AXIOMS.append((frozenset(["vname_width"]), z3.ForAll([n], z3.Implies(z3.And(1 <= n, n <= limit(i)), vwidth(vname(i, n)) == i), patterns=[vname(i, n)])))


def pigeonhole(d, w):
    """As many keys as numbers, and every number has its key: then there is no other key."""
    x, m = z3.Const("x", V), miss(d, w)
    return z3.ForAll([x], z3.Implies(has(d, x), z3.Or(z3.And(x == vname(w, vnum(x)), 1 <= vnum(x), vnum(x) <= nk(d)), z3.And(1 <= m, m <= nk(d), z3.Not(has(d, vname(w, m)))))),
                     patterns=[has(d, x)])


version_axioms()


gap = z3.Function("gap_version", V, IntS, IntS, IntS)


def room(d, w, n):
    """n numbers have their key: then there are at least n keys."""
    g = gap(d, w, n)
    return z3.Or(n <= nk(d), z3.And(1 <= g, g <= n, z3.Not(has(d, vname(w, g)))))


def sequence_valid(d, w, n):
    """The keys of d are the names of versions 1..n in width w."""
    x = z3.Const("x", V)
    k = z3.Int("k")
    return [("versions is an object", kind(d) == KD), ("there is a version", n >= 1), ("as many as there are keys", n == nk(d)),
            ("every number has its version", FA([k], z3.Implies(z3.And(1 <= k, k <= n), has(d, vname(w, k))), vname(w, k))),
            ("there is no other version", FA([x], z3.Implies(has(d, x), z3.And(x == vname(w, vnum(x)), 1 <= vnum(x), vnum(x) <= n)), has(d, x))),
            ("the padding has room", z3.Or(*[z3.And(w == i, n <= limit(i)) for i in [0] + list(range(2, 11))]))]


ONE = [(i, "v1" if i == 0 else "v%0*d" % (i, 1)) for i in [0] + list(range(2, 11))]     # width and name of the first version


def width_of(a):
    t = z3.simplify(a.seq[0])
    for i, x in ONE:
        if t.eq(lit(x)):
            return z3.IntVal(i)
    return vwidth(t)


def listed(a, w, n):
    """The list is the versions 1..n in order."""
    j, x = z3.Int("j"), z3.Const("x", V)
    return [("as long as there are versions", a.len == n),
            ("the versions in order", FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(a.seq[j] == vname(w, j + 1), a.arr[a.seq[j]])), a.seq[j])),
            ("nothing else is listed", FA([x], z3.Implies(a.arr[x], z3.And(x == vname(w, vnum(x)), 1 <= vnum(x), vnum(x) <= n)), a.arr[x]))]


def sequence_inv(d, mode):
    def inv(l):
        a = l.the(AccList)
        x = z3.Const("x", V)
        j = z3.Int("j")
        if mode == "C":
            return [("only keys are listed", FA([x], z3.Implies(a.arr[x], z3.And(has(d, x), kind(x) == KS)), a.arr[x])), ("not empty", a.len >= 1)]
        w = width_of([l.entry.heap[o] for o in l.modobjs if isinstance(l.entry.heap.get(o), AccList)][0])
        return listed(a, w, l.i + 1) + [
                ("they are versions", FA([j], z3.Implies(z3.And(1 <= j, j <= l.i + 1), has(d, vname(w, j))), vname(w, j)))]
    return [LoopSpec(lambda t: True, inv)]


def validate_sequence(mode):
    def run(c):
        base(c.eng, mode)
        c.eng.split_paths = True
        for w0, _ in (ONE if mode == "A" else [(None, None)]):
            st, e0 = start(c)
            me, alg, cd = validator(c, st, False)
            d = fresh("V", "versions")
            if mode == "A":
                for _, g in sequence_valid(d, z3.IntVal(w0), fresh("int", "count")):
                    st.assume_(g)
            c.eng.loops[c.t.func] = sequence_inv(d, mode)
            rets, raises = c.run(st, [Sym("V", d)], self_=me)
            total(c, rets, raises, e0, "sequence")
            if w0 in (None, 3):
                for s, v in (rets if mode == "A" else rets[:6]):
                    c.cover_any(s, "sequence")
            for s, v in rets:
                sequence_post(c, s, v, d, mode, w0, e0)
    return run


def sequence_post(c, s, v, d, mode, w0, e0):
    a = s.heap[v.oid]
    a = a if isinstance(a, AccList) else c.eng.B.acclist(a)
    if mode == "C":
        x = fresh("V", "x")
        c.prove(s, z3.Implies(a.arr[x], z3.And(has(d, x), kind(d) == KD, kind(x) == KS)), "only keys of the versions block are listed")
        c.prove(s, z3.Implies(a.len == 0, s.ghost["~errs"] > e0), "no version is an error")
        return
    for w, one in ONE:
        s1 = s.assume(a.seq[0] == lit(one))
        if w0 is not None and w != w0 or not c.eng.feasible(s1):
            continue
        s1.fact_(room(d, z3.IntVal(w), a.len))
        if mode == "B":
            s1.fact_(pigeonhole(d, z3.IntVal(w)))
            for nm, g in sequence_valid(d, z3.IntVal(w), a.len):
                c.prove(s1, g, "without error: " + nm)
        for nm, g in listed(a, z3.IntVal(w), nk(d)):
            c.prove(s1, g, nm)
        x = fresh("V", "x")
        c.prove(s1, a.arr[x] == has(d, x), "the versions listed are the keys")
        c.prove(s1, z3.And(a.len >= 1, a.seq[a.len - 1] == vname(w, nk(d)), a.arr[a.seq[a.len - 1]]), "the last one is the highest")
    c.prove(s, z3.Or(*[a.seq[0] == lit(one) for w, one in ONE]), "the list starts with the first version")


for _m in "ABC":
    task(PROP[_m], C + "_validate_version_sequence", clause=WORD[_m])(validate_sequence(_m))


# ---- state blocks ----
def state_valid(d, alg, U):
    """U: the digests of the manifest as they are."""
    x = z3.Const("x", V)
    return ([("state is an object", kind(d) == KD),
             ("state digests are manifest keys", FA([x], z3.Implies(has(d, x), z3.And(U[x], dform(alg, x))), has(d, x))),
             ("state digests have lists", FA([x], z3.Implies(has(d, x), kind(get(d, x)) == KL), has(d, x)))]
            + paths_are(d, okl) + unique_paths(d) + no_conflict(d))


def used_by(d, alg, arr):
    """The list holds exactly the normalized digests of the state."""
    x, y = X("x", "y")
    return [("only digests of the state", [x], arr[x], z3.Exists([y], z3.And(has(d, y), x == norm(alg, y)))),
            ("every digest of the state", [y], has(d, y), arr[norm(alg, y)])]


def state_loops(m, alg, U, mode):
    def facts(l, o, i, inner):
        x, p, q, d = X("x", "p", "q", "d")
        j, k = z3.Ints("j k")
        P, D, GA = l.arr("logical_paths"), l.arr("logical_directories"), l.arr("digests")
        if mode == "C":
            return [("paths are strings", FA([p], z3.Implies(P[p], kind(p) == KS), P[p])),
                    ("directories are strings", FA([p], z3.Implies(D[p], kind(p) == KS), D[p])),
                    ("digests are strings", FA([p], z3.Implies(GA[p], kind(p) == KS), GA[p]))]
        b0, b1 = l.birth("logical_paths", 0), l.birth("logical_paths", 1)
        lst = lambda j: get(m, key(m, j))
        before = z3.Or(b0[p] < o, z3.And(b0[p] == o, b1[p] < i)) if inner else b0[p] < o
        done = z3.Or(j < o, z3.And(j == o, k < i)) if inner else j < o
        out = [("a path comes from the list of a digest", FA([p], z3.Implies(P[p], z3.And(0 <= b0[p], before, 0 <= b1[p], b1[p] < jlen(lst(b0[p])), at(lst(b0[p]), b1[p]) == p)), P[p])),
               ("paths are well formed", FA([p], z3.Implies(P[p], z3.And(kind(p) == KS, okl(p))), P[p])),
               ("every path so far is there, once", FA([j, k], z3.Implies(z3.And(0 <= j, done, 0 <= k, k < jlen(lst(j))), z3.And(P[at(lst(j), k)], b0[at(lst(j), k)] == j, b1[at(lst(j), k)] == k)),
                                                       at(lst(j), k))),
               ("directories are those of the paths", FA([d], z3.Implies(D[d], z3.Exists([q], z3.And(P[q], d == s_parent(q, SL)))), D[d])),
               ("every path has its directory", FA([q], z3.Implies(P[q], D[s_parent(q, SL)]), P[q]))]
        if not inner:
            gb = l.birth("digests", 0)
            out += [("digests so far are listed", FA([j], z3.Implies(z3.And(0 <= j, j < o), GA[norm(alg, key(m, j))]), key(m, j))),
                    ("only these digests", FA([x], z3.Implies(GA[x], z3.And(0 <= gb[x], gb[x] < o, norm(alg, key(m, gb[x])) == x)), GA[x])),
                    ("the digests so far are as they should be", FA([j], z3.Implies(z3.And(0 <= j, j < o), z3.And(dform(alg, key(m, j)), kind(lst(j)) == KL, U[key(m, j)])), key(m, j)))]
        return out

    def outer(l):
        if not (z3.is_expr(l.it) and l.it.eq(m)):
            return []
        return facts(l, l.i, None, False)

    def inner(l):
        return facts(l, l.outer[-1], l.i, True)
    return [LoopSpec(lambda t: True, outer, depth=0), LoopSpec(lambda t: True, inner, depth=1)]


def some_set(st, name, strings=True):
    U = fresh(SetS, name)
    x = z3.Const("x", V)
    if strings:
        st.fact_(z3.ForAll([x], z3.Implies(U[x], kind(x) == KS), patterns=[U[x]]))
    return U


def validate_state_block(mode, lax=False):
    def run(c):
        path_checks(c.eng, mode)
        for nodigests in ((False, True) if mode == "C" else (False,)):
            st, e0 = start(c)
            me, alg, cd = validator(c, st, lax)
            d = fresh("V", "state")
            U = some_set(st, "manifest_keys")
            if not lax and mode != "C":
                st.assume_(known(alg))
            if mode == "A":
                for _, g in state_valid(d, alg, U):
                    st.assume_(g)
            c.eng.loops[c.t.func] = state_loops(d, alg, U, mode)
            rets, raises = c.run(st, [Sym("V", d)], {"version": Sym("V", fresh("V", "version")), "unnormalized_digests": None if nodigests else c.eng.alloc(st, SetObj(U))}, self_=me)
            total(c, rets, raises, e0, "state")
            for s, v in rets:
                c.cover(s, "state")
                a = c.eng.as_setarr(s.heap[v.oid])
                if mode == "C":
                    x = fresh("V", "x")
                    c.prove(s, z3.Implies(a[x], kind(x) == KS), "the digests are strings")
                    continue
                if mode == "B":
                    for nm, g in state_valid(d, alg, U):
                        c.prove(s, g, "without error: " + nm)
                for nm, vs, p, q in used_by(d, alg, a):
                    c.prove(s, z3.ForAll(vs, z3.Implies(p, q)), nm)
    return run


for _m in "ABC":
    task(PROP[_m], C + "_validate_state_block", clause=WORD[_m])(validate_state_block(_m))
task("C03", C + "_validate_state_block", clause="total, any digest algorithm")(validate_state_block("C", True))


svalid = z3.Function("state_valid", V, V, SetS, BoolS)            # the conjunction of state_valid(...), opaque to callers
su = z3.Function("state_digest", V, V, V, BoolS)                  # (state, algorithm, digest): a normalized digest of the state


def s_validate_state_block(eng, st, env, node):
    """Contract of _validate_state_block (svalid: all of state_valid; su: what used_by says)."""
    me = st.heap[env["self"].oid]
    alg, d = eng.toV(me.fields["digest_algorithm"]), eng.toV(env["state"])
    u = env["unnormalized_digests"]
    U = z3.K(V, z3.BoolVal(True)) if u is None else eng.as_setarr(st.heap[u.oid])
    s = st.copy()
    if eng.vmode == "A":
        eng.prove(st, svalid(d, alg, U), "the checked state block is valid", node)
    if eng.vmode == "B":
        s.assume_(svalid(d, alg, U))
    if eng.vmode == "C":
        s = some_errors(eng, s)
    a = fresh(SetS, "digests_in_state")
    x = z3.Const("x", V)
    if eng.vmode == "C":
        s.fact_(z3.ForAll([x], z3.Implies(a[x], kind(x) == KS), patterns=[a[x]]))
    else:
        s.fact_(z3.ForAll([x], a[x] == su(d, alg, x), patterns=[a[x]]))
        s.fact_(z3.ForAll([x], a[x] == su(d, alg, x), patterns=[su(d, alg, x)]))
    n = fresh("int", "len")
    s.fact_(n >= 0)
    return [(s, eng.alloc(s, AccList(a, n)))]


# ---- versions ----
tz = z3.Function("has_timezone", V, BoolS)
secs = z3.Function("has_seconds", V, BoolS)


def version_valid(b, alg, U):
    """One version block."""
    cr, us = get(b, lit("created")), get(b, lit("user"))
    return ([("version is an object", kind(b) == KD),
             ("created is a date and time with timezone and seconds", z3.And(has(b, lit("created")), kind(cr) == KS, dt_ok(cr), tz(cr), secs(cr))),
             ("there is a state", has(b, lit("state"))),
             ("message is a string", z3.Implies(has(b, lit("message")), kind(get(b, lit("message"))) == KS)),
             ("user has a name", z3.Implies(has(b, lit("user")), z3.And(kind(us) == KD, has(us, lit("name")), kind(get(us, lit("name"))) == KS))),
             ("user address is a string", z3.Implies(z3.And(has(b, lit("user")), has(us, lit("address"))), kind(get(us, lit("address"))) == KS))]
            + [("the state is valid", svalid(get(b, lit("state")), alg, U))])


def versions_valid(d, A, alg, U):
    """Every listed version block is valid."""
    v = z3.Const("v", V)
    return [("listed versions: " + nm, FA([v], z3.Implies(A[v], g), A[v])) for nm, g in version_valid(get(d, v), alg, U)]


def versions_use(d, A, alg, x):
    """A listed version has the digest in its state."""
    v = z3.Const("v", V)
    return z3.Exists([v], z3.And(A[v], su(get(get(d, v), lit("state")), alg, x)))


from contracts.timestamps import LANG as W3C, nd    # noqa: E402
from pyvc.values import Sym as _Sym                # noqa: E402
ANYTEXT = z3.Full(z3.ReSort(StrS))
TZLANG = z3.Concat(ANYTEXT, z3.Union(z3.Re("Z"), z3.Concat(z3.Union(z3.Re("+"), z3.Re("-")), nd(2), z3.Re(":"), nd(2))))
SECLANG = z3.Concat(ANYTEXT, z3.Re("T"), nd(2), z3.Re(":"), nd(2), z3.Re(":"), nd(2), ANYTEXT)


def same_on_dates(R, S):
    from pyvc import reg as rg
    a, b = z3.Intersect(W3C, R), z3.Intersect(W3C, S)
    try:
        return rg.included(a, b) and rg.included(b, a)
    except rg.NotRegular:
        return False


def regex_on_dates(how):
    """re.search/match/fullmatch on a text known to be a W3C date: does it decide `has timezone` or `has seconds`?"""
    def f(eng, st, a, kw, node):
        pat, s = a[0], a[1]
        fl = eng.B.X.flags(a[2] if len(a) > 2 else kw.get("flags"))
        if isinstance(pat, rx.Pattern):
            fl, pat = tuple(pat.flags) + tuple(fl), pat.pat
        if not (isinstance(pat, str) and isinstance(s, _Sym) and s.sort == "V"):
            return eng.B.X.rematch(st, a[0], s, a[2] if len(a) > 2 else kw.get("flags"), how, node)
        st = eng.raise_if(st, kind(s.t) != KS, TypeError)
        if st is None:
            return []
        R = rx.language(pat, fl, how)
        y = fresh("bool", "matches")
        st = st.copy()
        for S, p in ((TZLANG, tz), (SECLANG, secs)):
            if same_on_dates(R, S):
                st.fact_(z3.Implies(dt_ok(s.t), y == p(s.t)))
        t, n = eng.fork(st, y)
        from pyvc.ext_model import Matched
        return ([(t, Matched())] if t is not None else []) + ([(n, None)] if n is not None else [])
    return f


def versions_inv(d, A, alg, U, mode):
    def inv(l):
        x, v = X("x", "v")
        j = z3.Int("j")
        used = l.arr("digests_used")
        if mode == "C":
            return [("digests are strings", FA([x], z3.Implies(used[x], kind(x) == KS), used[x]))]
        e = l.view_seq
        st_ = lambda v: get(get(d, v), lit("state"))
        return [("only digests of the versions so far", FA([x], z3.Implies(used[x], z3.Exists([j], z3.And(0 <= j, j < l.i, su(st_(e(j)), alg, x)))), used[x])),
                ("all digests of the versions so far", FA([j, x], z3.Implies(z3.And(0 <= j, j < l.i, su(st_(e(j)), alg, x)), used[x]), su(st_(e(j)), alg, x)))] + (
                [("the versions so far: " + nm, FA([j], z3.Implies(z3.And(0 <= j, j < l.i), g), e(j))) for nm, g in version_valid(get(d, e(j)), alg, U)] if mode == "B" else [])
    return [LoopSpec(lambda t: True, inv)]


def version_list(eng, st, name="versions_listed"):
    """A list of strings."""
    A, n, q = fresh(SetS, name), fresh("int", "len"), fresh(SeqS, "seq")
    x, j = z3.Const("x", V), z3.Int("j")
    st.fact_(n >= 0)
    st.fact_(z3.ForAll([x], z3.Implies(A[x], kind(x) == KS), patterns=[A[x]]))
    return A, n, q, eng.alloc(st, AccList(A, n, (), q))


def validate_versions(mode, lax=False):
    def run(c):
        path_checks(c.eng, mode)
        c.eng.summaries[C + "_validate_state_block"] = s_validate_state_block
        for h in ("search", "match", "fullmatch"):
            c.eng.ext["re." + h] = regex_on_dates(h)
        for nodigests in ((False, True) if mode == "C" else (False,)):
            st, e0 = start(c)
            me, alg, cd = validator(c, st, lax)
            d = fresh("V", "versions")
            U = some_set(st, "manifest_keys")
            A, n, q, vl = version_list(c.eng, st)
            v, x = X("v", "x")
            st.assume_(z3.Implies(n > 0, kind(d) == KD))
            st.assume_(z3.ForAll([v], z3.Implies(A[v], z3.And(has(d, v), kind(d) == KD)), patterns=[A[v]]))
            if mode == "A":
                for _, g in versions_valid(d, A, alg, U):
                    st.assume_(g)
            c.eng.loops[c.t.func] = versions_inv(d, A, alg, U, mode)
            rets, raises = c.run(st, [Sym("V", d), vl, None if nodigests else c.eng.alloc(st, SetObj(U))], self_=me)
            total(c, rets, raises, e0, "versions")
            for s, r in rets:
                c.cover(s, "versions")
                used = c.eng.as_setarr(s.heap[r.oid])
                xx = fresh("V", "x")
                if mode == "C":
                    c.prove(s, z3.Implies(used[xx], kind(xx) == KS), "the digests are strings")
                    continue
                if mode == "B":
                    for nm, g in versions_valid(d, A, alg, U):
                        c.prove(s, g, "without error: " + nm)
                c.prove(s.assume(used[xx]), versions_use(d, A, alg, xx), "only digests of the states")
                vv = fresh("V", "v")
                c.prove(s.assume(z3.And(A[vv], su(get(get(d, vv), lit("state")), alg, xx))), used[xx], "all digests of the states")
    return run


for _m in "ABC":
    task(PROP[_m], C + "_validate_versions", clause=WORD[_m])(validate_versions(_m))


# ---- content paths against versions, digests against states ----
def path_list(eng, st, name, slash=True):
    G, n = fresh(SetS, name), fresh("int", "len")
    x = z3.Const("x", V)
    st.fact_(n >= 0)
    st.fact_(z3.ForAll([x], z3.Implies(G[x], z3.And(kind(x) == KS, s_contains(x, SL))), patterns=[G[x]]))
    return G, eng.alloc(st, AccList(G, n))


def under_versions(G, A):
    p = z3.Const("p", V)
    return FA([p], z3.Implies(G[p], A[head(p, SL)]), G[p])


def content_paths(mode):
    def run(c):
        base(c.eng, mode)
        st, e0 = start(c)
        me, alg, cd = validator(c, st, False)
        G, gl = path_list(c.eng, st, "content_paths")
        A, n, q, vl = version_list(c.eng, st)
        if mode == "A":
            st.assume_(under_versions(G, A))
        c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, (lambda l: [("paths so far are under versions", FA([z3.Int("j")], z3.Implies(z3.And(0 <= z3.Int("j"), z3.Int("j") < l.i), A[head(l.view_seq(z3.Int("j")), SL)]),
                                                                                                    l.view_seq(z3.Int("j"))))]) if mode == "B" else None)]
        rets, raises = c.run(st, [gl, vl], self_=me)
        total(c, rets, raises, e0, "content paths")
        for s, r in rets:
            c.cover(s, "content paths")
            if mode == "B":
                c.prove(s, under_versions(G, A), "without error: every content path is under a version")
    return run


def digests_used(mode):
    def run(c):
        base(c.eng, mode)
        st, e0 = start(c)
        me, alg, cd = validator(c, st, False)
        MF, MV, mf = map_of(c.eng, st, "manifest_files")
        u = some_set(st, "digests_used")
        n = fresh("int", "len")
        st.fact_(n >= 0)
        p, x = X("p", "x")
        every = FA([p], z3.Implies(MF[p], u[MV[p]]), MF[p])
        listed_ = FA([x], z3.Implies(u[x], z3.Exists([p], z3.And(MF[p], MV[p] == x))), u[x])
        if mode == "A":
            st.assume_(every)
            st.assume_(listed_)
        rets, raises = c.run(st, [mf, c.eng.alloc(st, AccList(u, n))], self_=me)
        total(c, rets, raises, e0, "digests")
        for s, r in rets:
            c.cover(s, "digests")
            if mode == "B":
                c.prove(s, every, "without error: every digest of a file is used")
                c.prove(s, listed_, "without error: every digest used has a file")
    return run


for _m in "ABC":
    task(PROP[_m], C + "__check_content_paths_map_to_versions", clause=WORD[_m])(content_paths(_m))
    task(PROP[_m], C + "_check_digests_present_and_used", clause=WORD[_m])(digests_used(_m))


# ---- validate: the contracts of the parts, opaque ----
from pyvc.values import setof           # noqa: E402
mvalid = z3.Function("manifest_valid", V, V, V, BoolS)           # all of manifest_valid(...)
files_of = z3.Function("manifest_files", V, SetS)                # p: in_block(manifest, p)
image_of = z3.Function("manifest_used_digests", V, V, SetS)      # x: some key of the manifest with a file is x when normalized
seqvalid = z3.Function("sequence_valid", V, BoolS)               # sequence_valid(...) for some width
last_of = z3.Function("last_version", V, V)                      # the name of the highest version
vsvalid = z3.Function("versions_valid", V, SetS, V, SetS, BoolS)
vuse = z3.Function("versions_use", V, SetS, V, V, BoolS)
fvalid = z3.Function("fixity_valid", V, SetS, BoolS)


def opaque(eng, st, f, what, node):
    """A part of validity: to be shown when a valid inventory is checked, known after a check without error."""
    if eng.vmode == "A":
        eng.prove(st, f, "what is checked is valid: " + what, node)
    return st.assume(f) if eng.vmode in "AB" else some_errors(eng, st)


def each(f):
    """The contract with every argument on its own path."""
    def g(eng, st, env, node):
        cur = [(st, {})]
        for k, v in env.items():
            cur = [(s2, dict(e, **{k: x})) for s, e in cur for s2, x in eng.split(s, v)]
        out = []
        for s, e in cur:
            out += f(eng, s, e, node)
        return out
    return g


def arr_of(eng, st, v):
    return eng.as_setarr(st.heap[v.oid])


@each
def s_validate_manifest(eng, st, env, node):
    me, m = st.heap[env["self"].oid], eng.toV(env["manifest"])
    alg, cd = eng.toV(me.fields["digest_algorithm"]), eng.toV(me.fields["content_directory"])
    eng.prove(st, z3.And(kind(alg) == KS, kind(cd) == KS, s_plain(cd)), "the content directory is a string without slash", node)
    if not me.fields["lax_digests"]:
        eng.prove(st, known(alg), "the digest algorithm is known", node)
    s = opaque(eng, st, mvalid(m, alg, cd), "manifest", node)
    F = files_of(m) if eng.vmode in "AB" else fresh(SetS, "files")
    G = F if eng.vmode in "AB" else fresh(SetS, "good_files")
    U = setof(m) if eng.vmode in "AB" else some_set(s, "digests")
    val, n = fresh(z3.ArraySort(V, V), "file_digest"), fresh("int", "len")
    p, x = X("p", "x")
    s.fact_(n >= 0)
    s.fact_(FA([p], z3.Implies(F[p], z3.And(kind(p) == KS, kind(val[p]) == KS)), F[p]))
    s.fact_(FA([p], z3.Implies(G[p], z3.And(kind(p) == KS, s_contains(p, SL))), G[p]))
    if eng.vmode in "AB":
        s.fact_(FA([p], z3.Implies(F[p], image_of(m, alg)[val[p]]), F[p]))
        s.fact_(FA([x], z3.Implies(image_of(m, alg)[x], z3.Exists([p], z3.And(F[p], val[p] == x))), image_of(m, alg)[x]))
    return [(s, (eng.alloc(s, MapObj(F, val)), eng.alloc(s, AccList(G, n)), eng.alloc(s, SetObj(U))))]


@each
def s_validate_sequence(eng, st, env, node):
    d = eng.toV(env["versions"])
    s = opaque(eng, st, seqvalid(d), "version sequence", node)
    A, n, q, l = version_list(eng, s)
    x = z3.Const("x", V)
    if eng.vmode == "C":
        s.fact_(FA([x], z3.Implies(A[x], z3.And(has(d, x), kind(d) == KD)), A[x]))
        s.assume_(z3.Implies(n == 0, s.ghost["~errs"] > st.ghost["~errs"]))
        s.assume_(z3.Implies(n > 0, kind(d) == KD))
        s.assume_(z3.Implies(n > 0, z3.And(A[q[n - 1]])))
        return [(s, l)]
    s.assume_(z3.And(A == setof(d), n >= 1, n == nk(d), q[n - 1] == last_of(d), kind(d) == KD, A[q[n - 1]]))
    return [(s, l)]


@each
def s_validate_versions(eng, st, env, node):
    me, d = st.heap[env["self"].oid], eng.toV(env["versions"])
    alg, A = eng.toV(me.fields["digest_algorithm"]), arr_of(eng, st, env["all_versions"])
    v, x = X("v", "x")
    eng.prove(st, z3.ForAll([v], z3.Implies(A[v], z3.And(has(d, v), kind(d) == KD))), "the versions looked at are there", node)
    if eng.vmode != "C":
        eng.prove(st, known(alg), "the digest algorithm is known", node)
    out = []
    for s0, u in eng.split(st, env["unnormalized_digests"]):
        U = z3.K(V, z3.BoolVal(True)) if u is None else arr_of(eng, s0, u)
        s = opaque(eng, s0, vsvalid(d, A, alg, U), "versions", node)
        a, n = fresh(SetS, "digests_used"), fresh("int", "len")
        s.fact_(n >= 0)
        if eng.vmode == "C":
            s.fact_(FA([x], z3.Implies(a[x], kind(x) == KS), a[x]))
        else:
            s.fact_(FA([x], a[x] == vuse(d, A, alg, x), a[x]))
            s.fact_(FA([x], a[x] == vuse(d, A, alg, x), vuse(d, A, alg, x)))
        out.append((s, eng.alloc(s, AccList(a, n))))
    return out


@each
def s_content_paths(eng, st, env, node):
    out = []
    for s, g in eng.split(st, env["manifest_files"]):
        G = arr_of(eng, s, g)
        p = z3.Const("p", V)
        eng.prove(s, FA([p], z3.Implies(G[p], z3.And(kind(p) == KS, s_contains(p, SL))), G[p]), "content paths have a slash", node)
        out.append((opaque(eng, s, under_versions(G, arr_of(eng, s, env["all_versions"])), "content paths under versions", node), None))
    return out


@each
def s_digests_used(eng, st, env, node):
    out = []
    for s1, f in eng.split(st, env["manifest_files"]):
        for s, u in eng.split(s1, env["digests_used"]):
            o = s.heap[f.oid]
            o = eng.B.mapobj(s, o) if isinstance(o, DictObj) else o
            w = s.heap[u.oid]
            a = eng.as_setarr(w)
            p, x = X("p", "x")
            eng.prove(s, FA([p], z3.Implies(o.dom[p], z3.And(kind(p) == KS, kind(o.val[p]) == KS)), o.dom[p]), "digests of files are strings", node)
            if eng.vmode == "C":
                eng.prove(s, z3.ForAll([x], z3.Implies(a[x], kind(x) == KS)), "digests used are strings", node)
            every = FA([p], z3.Implies(o.dom[p], a[o.val[p]]), o.dom[p])
            lst = z3.ForAll([x], z3.Implies(a[x], z3.Exists([p], z3.And(o.dom[p], o.val[p] == x))))
            s = opaque(eng, s, every, "every digest of a file is used", node)
            out.append((opaque(eng, s, lst, "every digest used has a file", node), None))
    return out


@each
def s_validate_fixity(eng, st, env, node):
    out = []
    for s, f in eng.split(st, env["manifest_files"]):
        if f is None:
            if eng.vmode != "C":
                raise Unsupported("fixity without manifest files", node)
            out.append((some_errors(eng, s), None))
            continue
        o = s.heap[f.oid]
        o = eng.B.mapobj(s, o) if isinstance(o, DictObj) else o
        p = z3.Const("p", V)
        eng.prove(s, FA([p], z3.Implies(o.dom[p], z3.And(kind(p) == KS, kind(o.val[p]) == KS)), o.dom[p]), "files are strings", node)
        out.append((opaque(eng, s, fvalid(eng.toV(env["fixity"]), o.dom), "fixity", node), None))
    return out


def s_plain(cd):
    return z3.Not(s_contains(cd, SL))


TYPES = {v: "https://ocfl.io/%s/spec/#inventory" % v for v in ("1.0", "1.1")}


def inventory_valid(v, force):
    """The conditions of the specification on a whole inventory."""
    h, g = (lambda k: has(v, lit(k))), (lambda k: get(v, lit(k)))
    alg = g("digestAlgorithm")
    cd = z3.If(h("contentDirectory"), g("contentDirectory"), lit("content"))
    m, d = g("manifest"), g("versions")
    x = z3.Const("x", V)
    return [("inventory is an object", kind(v) == KD),
            ("id is a non-empty string", z3.And(h("id"), kind(g("id")) == KS, g("id") != lit(""))),
            ("type is that of a known specification version", z3.And(h("type"), z3.Or(*[g("type") == lit(TYPES[t]) for t in ([force] if force else TYPES)]))),
            ("digest algorithm is sha512 or sha256", z3.And(h("digestAlgorithm"), z3.Or(alg == lit("sha512"), alg == lit("sha256")))),
            ("content directory is a simple name", z3.Implies(h("contentDirectory"), z3.And(kind(g("contentDirectory")) == KS, s_plain(g("contentDirectory")),
                                                                                            g("contentDirectory") != lit("."), g("contentDirectory") != lit("..")))),
            ("manifest is valid", z3.And(h("manifest"), mvalid(m, alg, cd))),
            ("version sequence is valid", z3.And(h("versions"), seqvalid(d))),
            ("version blocks are valid", vsvalid(d, setof(d), alg, setof(m))),
            ("head is the last version", z3.And(h("head"), g("head") == last_of(d))),
            ("content paths are under versions", under_versions(files_of(m), setof(d))),
            ("digests of files are those of states", FA([x], image_of(m, alg)[x] == vuse(d, setof(d), alg, x), image_of(m, alg)[x])),
            ("digests of states are those of files", FA([x], image_of(m, alg)[x] == vuse(d, setof(d), alg, x), vuse(d, setof(d), alg, x))),
            ("fixity is valid", z3.Implies(h("fixity"), fvalid(g("fixity"), files_of(m))))]


def parts(eng, mode):
    base(eng, mode)
    eng.summaries.update({C + "_validate_manifest": s_validate_manifest, C + "_validate_version_sequence": s_validate_sequence, C + "_validate_versions": s_validate_versions,
                          C + "__check_content_paths_map_to_versions": s_content_paths, C + "_check_digests_present_and_used": s_digests_used,
                          C + "_validate_fixity": s_validate_fixity})


def validate(mode, lax=False):
    def run(c):
        parts(c.eng, mode)
        c.eng.split_returns = mode == "C"
        for force in (None, "1.0", "1.1"):
            c.covering = force is None
            st, e0 = start(c)
            facts_algorithms(st)
            st.fact_(s_plain(lit("content")))
            for s0, me in c.new(st, "inventory_validator", "InventoryValidator", [], {"log": Log(), "lax_digests": lax}):
                s0 = s0.copy()
                v = fresh("V", "inventory")
                valid = inventory_valid(v, force)
                if mode == "A":
                    for _, g in valid:
                        s0.assume_(g)
                rets, raises = c.run(s0, [Sym("V", v), force], self_=me)
                total(c, rets, raises, e0, "validate")
                for s1, r1 in rets:
                    for s, r in c.eng.split(s1, r1):
                        for s2, b in c.eng.truth(s, r):
                            validate_post(c, s2, r, b, e0, mode, valid)
    return run


def validate_post(c, s, r, b, e0, mode, valid):
    c.prove(s, z3.BoolVal(isinstance(r, bool) or isinstance(r, Sym) and r.sort == "bool"), "the verdict is a bool")
    if mode == "C":
        c.prove(s, (s.ghost["~errs"] == e0) == z3.BoolVal(b), "the verdict is True exactly when no error was counted")
    c.cover_any(s, "validate, verdict %s" % b)
    if mode == "A":
        c.prove(s, z3.BoolVal(b), "a valid inventory is accepted")
    if mode == "B" and b:
        for nm, g in valid:
            c.prove(s, g, "accepted: " + nm)


for _m in "ABC":
    task(PROP[_m], C + "validate", clause=WORD[_m])(validate(_m))
task("C03", C + "validate", clause="total, any digest algorithm")(validate("C", True))
