"""C20: queries of an inventory (ocfl/inventory.py)."""
import z3

from pyvc.engine import State, LoopSpec
from pyvc.task import task
from pyvc.values import (Sym, Ref, Inst, Exc, ListObj, AccList, MapObj, DictObj, V, fresh, kind, has, get, key, nk, kidx, mem, at, jlen, lit, noneV, setof, iv, boxi,
                         KD, KL, KS, KN, IntS, BoolS, StrS, SetS, SeqS, EMPTY)

vnum = z3.Function("vnum", V, IntS)              # number of a version directory name
isvdir = z3.Function("is_version_directory", V, BoolS)


def object_exception(eng):
    m = eng.repo.module("object_utils")
    return m.classes.get("ObjectException") or eng.repo.module("object_utils").classes["ObjectException"]


def named(st, t):
    """A name for a term (terms with conditions cannot be used in patterns)."""
    b = fresh("V", "block")
    st.fact_(b == t)
    return b


def s_parse(eng, st, env, node):
    """Contract of parse_version_directory (proved for C10): the number of a version directory name, else an exception."""
    t = eng.toV(env["dirname"])
    y, n = eng.fork(st, isvdir(t))
    if n is not None:
        eng.raise_(n, Exc(object_exception(eng)))
    if y is None:
        return []
    return [(y.assume(z3.And(vnum(t) >= 1, kind(t) == KS)), Sym("int", vnum(t)))]


def lists(d, who):
    """d is a dict with lists of strings as values."""
    x, y = z3.Consts("x y", V)
    return [kind(d) == KD,
            z3.ForAll([x], z3.Implies(has(d, x), kind(get(d, x)) == KL), patterns=[has(d, x)]),
            z3.ForAll([x, y], z3.Implies(z3.And(has(d, x), mem(get(d, x), y)), kind(y) == KS), patterns=[z3.MultiPattern(has(d, x), mem(get(d, x), y))])]


def block(d, k, default=None):
    """get(d, k, default)"""
    return z3.If(has(d, lit(k)), get(d, lit(k)), default)


emptyD = z3.Const("emptyD", V)


def empty(st):
    x = z3.Const("x", V)
    st.fact_(z3.And(kind(emptyD) == KD, nk(emptyD) == 0, z3.ForAll([x], z3.Not(has(emptyD, x)), patterns=[has(emptyD, x)])))


def inventory(c):
    """An Inventory on any data of the right shape."""
    st = State()
    empty(st)
    d = fresh("V", "data")
    x = z3.Const("x", V)
    st.assume_(kind(d) == KD)
    man, vers = lit("manifest"), lit("versions")
    for f in lists(get(d, man), "manifest"):
        st.assume_(z3.Implies(has(d, man), f))
    st.assume_(z3.Implies(has(d, vers), kind(get(d, vers)) == KD))
    vb = get(d, vers)
    v = z3.Const("v", V)
    st.assume_(z3.ForAll([v], z3.Implies(z3.And(has(d, vers), has(vb, v)), z3.And(kind(get(vb, v)) == KD, isvdir(v))), patterns=[has(vb, v)]))
    sb = get(get(vb, v), lit("state"))
    for f in lists(sb, "state"):
        st.assume_(z3.ForAll([v], z3.Implies(z3.And(has(d, vers), has(vb, v), has(get(vb, v), lit("state"))), f), patterns=[sb]))
    c.eng.frozen = "queries do not change the data"
    me = c.inst(st, "inventory", "Inventory", {"data": Sym("V", d)})
    return st, me, d


def setup(eng):
    eng.summaries["object_utils.parse_version_directory"] = s_parse


def plain(c, qual, cls="Inventory"):
    pass


SIMPLE = [("id", "id", None), ("head", "head", None), ("digest_algorithm", "digestAlgorithm", None), ("content_directory", "contentDirectory", None),
          ("content_directory_to_use", "contentDirectory", "content"), ("manifest", "manifest", {}), ("fixity", "fixity", {}), ("versions_block", "versions", {})]


def same(c, s, v, t):
    """The value v is the term t; {} for the empty block."""
    if isinstance(v, Ref):
        o = s.heap[v.oid]
        if isinstance(o, DictObj) and not o.items:
            return t == emptyD
        return z3.BoolVal(False)
    return c.eng.toV(v) == t


def default(x):
    return noneV if x is None else emptyD if x == {} else lit(x)


def returns(c, rets, raises, what):
    """No exception, and for every return value."""
    for s, e in raises:
        c.eng.unreachable(s, "%s: no exception" % what)
    out = []
    for s, v in rets:
        c.cover(s, what)
        out += c.eng.split(s, v)
    return out


def accessor(name, k, dflt):
    def run(c):
        st, me, d = inventory(c)
        rets, raises = c.run(st, [], self_=me)
        for s, v in returns(c, rets, raises, name):
            c.prove(s, same(c, s, v, block(d, k, default(dflt))), "the value recorded, or the default")
    return run


for _n, _k, _d in SIMPLE:
    task("C20", "inventory.Inventory." + _n, setup=setup)(accessor(_n, _k, _d))


def version(c, vdir=None):
    st, inv, d = inventory(c)
    vdir = fresh("V", "vdir") if vdir is None else vdir
    st.assume_(kind(vdir) == KS)
    me = c.inst(st, "inventory", "Version", {"inv": inv, "vdir": Sym("V", vdir)})
    vd = z3.If(z3.And(has(d, lit("versions")), has(get(d, lit("versions")), vdir)), get(get(d, lit("versions")), vdir), emptyD)
    return st, me, d, vdir, vd


VSIMPLE = [("created", "created", None), ("message", "message", None), ("user", "user", {}), ("state", "state", {})]


def vaccessor(name, k, dflt):
    def run(c):
        st, me, d, vdir, vd = version(c)
        rets, raises = c.run(st, [], self_=me)
        for s, v in returns(c, rets, raises, name):
            c.prove(s, same(c, s, v, block(vd, k, default(dflt))), "the value recorded, or the default")
    return run


for _n, _k, _d in VSIMPLE:
    task("C20", "inventory.Version." + _n, setup=setup)(vaccessor(_n, _k, _d))


def uaccessor(name, k):
    def run(c):
        st, me, d, vdir, vd = version(c)
        u = block(vd, "user", emptyD)
        st.assume_(kind(u) == KD)
        rets, raises = c.run(st, [], self_=me)
        for s, v in returns(c, rets, raises, name):
            c.prove(s, same(c, s, v, block(u, k, noneV)), "the value recorded, or none")
    return run


for _n, _k in (("user_name", "name"), ("user_address", "address")):
    task("C20", "inventory.Version." + _n, setup=setup)(uaccessor(_n, _k))


@task("C20", "inventory.Version.number", setup=setup)
def number(c):
    st, me, d, vdir, vd = version(c)
    st.assume_(isvdir(vdir))
    rets, raises = c.run(st, [], self_=me)
    for s, v in returns(c, rets, raises, "number"):
        c.prove(s, c.eng.toint(v) == vnum(vdir), "the number of the version")


@task("C20", "inventory.Inventory.versiondata", setup=setup)
def versiondata(c):
    st, me, d = inventory(c)
    vdir = fresh("V", "vdir")
    st.assume_(kind(vdir) == KS)
    vb = block(d, "versions", emptyD)
    rets, raises = c.run(st, [Sym("V", vdir)], self_=me)
    for s, v in returns(c, rets, raises, "versiondata"):
        c.prove(s, same(c, s, v, z3.If(has(vb, vdir), get(vb, vdir), emptyD)), "the version block, or an empty one")


# ---- paths ----
total = z3.Function("files_before", V, IntS, IntS)      # number of paths in the first i entries of a digest->paths block


def total_eqs(d, i):
    return [total(d, z3.IntVal(0)) == 0, z3.Implies(i >= 0, total(d, i + 1) == total(d, i) + jlen(get(d, key(d, i))))]


def blk(c):
    """The block the loop runs over."""
    return c.term


def paths_inv(blockof):
    def inv(l):
        b = blockof(l)
        o = l.the(AccList, ListObj)
        o = o if isinstance(o, AccList) else l.eng.B.acclist(o)
        for f in total_eqs(b, l.i) + total_eqs(b, l.i - 1):
            l.st.fact_(f)
        x, j = z3.Const("x", V), z3.Int("j")
        w = z3.Function("entry_of", V, IntS)
        return [("only paths of the entries so far", z3.ForAll([x], z3.Implies(o.arr[x], z3.Exists([j], z3.And(0 <= j, j < l.i, mem(get(b, key(b, j)), x)))), patterns=[o.arr[x]])),
                ("every path of the entries so far", z3.ForAll([x, j], z3.Implies(z3.And(0 <= j, j < l.i, mem(get(b, key(b, j)), x)), o.arr[x]), patterns=[mem(get(b, key(b, j)), x)])),
                ("as many as there are", o.len == total(b, l.i))]
    return inv


def listobj(c, s, v):
    o = s.heap[v.oid]
    return o if isinstance(o, AccList) else c.eng.B.acclist(o)


def paths_post(c, s, v, b):
    o = listobj(c, s, v)
    x, p = fresh("V", "path"), fresh("V", "digest")
    i = fresh("int", "i")
    s2 = s.assume(o.arr[x])
    c.prove(s2, z3.Exists([p], z3.And(has(b, p), mem(get(b, p), x))), "only recorded paths")
    s3 = s.assume(z3.And(has(b, p), mem(get(b, p), x)))
    s3.fact_(kidx(b, p) >= 0)
    c.prove(s3, o.arr[x], "every recorded path")
    for f in total_eqs(b, nk(b)):
        s.fact_(f)
    c.prove(s, o.len == total(b, nk(b)), "each as often as it is recorded")


@task(["C20", "C06"], "inventory.Inventory.content_paths", setup=setup)
def content_paths(c):
    st, me, d = inventory(c)
    b = block(d, "manifest", emptyD)
    for f in total_eqs(b, z3.IntVal(0)):
        st.fact_(f)
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, paths_inv(lambda l: l.it))]
    rets, raises = c.run(st, [], self_=me)
    for s, v in returns(c, rets, raises, "content_paths"):
        paths_post(c, s, v, b)


@task(["C20", "C06"], "inventory.Version.logical_paths", setup=setup)
def logical_paths(c):
    st, me, d, vdir, vd = version(c)
    b = block(vd, "state", emptyD)
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, paths_inv(lambda l: l.it))]
    rets, raises = c.run(st, [], self_=me)
    for s, v in returns(c, rets, raises, "logical_paths"):
        for f in total_eqs(b, z3.IntVal(0)):
            s.fact_(f)
        paths_post(c, s, v, b)


def digest_post(c, s, v, b, p):
    """A digest under which the path is recorded; None when there is none."""
    x = fresh("V", "d")
    if v is None:
        c.prove(s.assume(has(b, x)), z3.Not(mem(get(b, x), p)), "none only for unknown paths")
    else:
        t = c.eng.toV(v)
        c.prove(s, z3.Or(z3.And(has(b, t), mem(get(b, t), p)), z3.And(t == noneV, z3.Implies(has(b, x), z3.Not(mem(get(b, x), p))))), "a digest under which the path is recorded")


def digest_for(vers):
    def run(c):
        if vers:
            st, me, d, vdir, vd = version(c)
            b = block(vd, "state", emptyD)
        else:
            st, me, d = inventory(c)
            b = block(d, "manifest", emptyD)
        p = fresh("V", "path")
        st.assume_(kind(p) == KS)
        c.eng.loops[c.t.func] = [LoopSpec(lambda t: True)]
        rets, raises = c.run(st, [Sym("V", p)], self_=me)
        for s, v in returns(c, rets, raises, "digest"):
            digest_post(c, s, v, b, p)
    return run


task("C20", "inventory.Inventory.digest_for_content_path", setup=setup)(digest_for(False))
task(["C20", "C06"], "inventory.Version.digest_for_logical_path", setup=setup)(digest_for(True))


@task("C20", "inventory.Inventory.content_paths_for_digest", setup=setup)
def paths_for_digest(c):
    st, me, d = inventory(c)
    b = block(d, "manifest", emptyD)
    x = fresh("V", "digest")
    st.assume_(kind(x) == KS)
    rets, raises = c.run(st, [Sym("V", x)], self_=me)
    for s, v in returns(c, rets, raises, "content paths"):
        if isinstance(v, Ref) and isinstance(s.heap[v.oid], ListObj):
            c.prove(s, z3.And(z3.BoolVal(not s.heap[v.oid].items), z3.Not(has(b, x))), "an empty list only for unknown digests")
        else:
            c.prove(s, z3.And(has(b, x), c.eng.toV(v) == get(b, x)), "the list recorded")


def first_of(b, x):
    """The first content path of a digest, none if there is none."""
    return z3.If(z3.And(has(b, x), jlen(get(b, x)) > 0), at(get(b, x), 0), noneV)


@task("C20", "inventory.Inventory.content_path_for_digest", setup=setup)
def path_for_digest(c):
    st, me, d = inventory(c)
    b = block(d, "manifest", emptyD)
    x = fresh("V", "digest")
    st.assume_(kind(x) == KS)
    rets, raises = c.run(st, [Sym("V", x)], self_=me)
    for s, v in returns(c, rets, raises, "content path"):
        c.prove(s, c.eng.toV(v) == first_of(b, x), "the first path recorded, or none")


def s_digest_for(eng, st, env, node):
    """Contract of digest_for_logical_path (proved above)."""
    me, p = st.heap[env["self"].oid], eng.toV(env["path"])
    d = st.heap[me.fields["inv"].oid].fields["data"].t
    vdir = eng.toV(me.fields["vdir"])
    st = st.copy()
    b = named(st, state_of(d, vdir))
    t, x = fresh("V", "digest"), z3.Const("x", V)
    y = st.assume(z3.And(has(b, t), mem(get(b, t), p), kind(t) == KS))
    n = st.copy()
    n.assume_(z3.ForAll([x], z3.Implies(has(b, x), z3.Not(mem(get(b, x), p))), patterns=[has(b, x)]))
    return [(y, Sym("V", t)), (n, None)]


def state_of(d, vdir):
    vb = block(d, "versions", emptyD)
    vd = z3.If(has(vb, vdir), get(vb, vdir), emptyD)
    return block(vd, "state", emptyD)


def cp_setup(eng):
    setup(eng)
    eng.summaries["inventory.Version.digest_for_logical_path"] = s_digest_for


@task("C20", "inventory.Version.content_path_for_logical_path", setup=cp_setup)
def path_for_path(c):
    st, me, d, vdir, vd = version(c)
    b, m = named(st, block(vd, "state", emptyD)), block(d, "manifest", emptyD)
    p, x = fresh("V", "path"), fresh("V", "x")
    st.assume_(kind(p) == KS)
    rets, raises = c.run(st, [Sym("V", p)], self_=me)
    for s, v in returns(c, rets, raises, "content path"):
        t = c.eng.toV(v)
        y = z3.Const("y", V)
        c.prove(s, z3.Or(z3.And(t == noneV, z3.ForAll([y], z3.Implies(has(b, y), z3.Not(mem(get(b, y), p))), patterns=[has(b, y)])),
                         z3.Exists([y], z3.And(has(b, y), mem(get(b, y), p), t == first_of(m, y)))), "the first content path of the path's digest, none if unknown")


# ---- versions ----
def version_order(c, s, o, vb, num):
    """o lists the versions of vb in increasing order; num: element -> number."""
    i, j = fresh("int", "i"), fresh("int", "j")
    x = fresh("V", "x")
    for f in o.seqfacts():
        s.fact_(f)
    c.prove(s, o.len == nk(vb), "as many as there are versions")
    s2 = s.assume(z3.And(0 <= i, i < j, j < o.len))
    c.prove(s2, num(o.seq[i]) <= num(o.seq[j]), "in increasing numeric order")


@task(["C20", "C10", "C09"], "inventory.Inventory.version_directories", setup=setup)
def version_directories(c):
    st, me, d = inventory(c)
    vb = block(d, "versions", emptyD)
    x = fresh("V", "x")
    rets, raises = c.run(st, [], self_=me)
    for s, v in returns(c, rets, raises, "version_directories"):
        o = listobj(c, s, v)
        version_order(c, s, o, vb, vnum)
        c.prove(s, o.arr[x] == has(vb, x), "exactly the versions recorded")


def s_version_directories(eng, st, env, node):
    """Contract of version_directories (proved above)."""
    d = st.heap[env["self"].oid].fields["data"].t
    s = st.copy()
    vb = named(s, block(d, "versions", emptyD))
    i, j, x = z3.Int("i"), z3.Int("j"), z3.Const("x", V)
    q, arr = fresh(SeqS, "versions"), fresh(SetS, "versionset")
    o = AccList(arr, nk(vb), (), q)
    s.fact_(z3.ForAll([x], arr[x] == has(vb, x), patterns=[arr[x]]))
    s.fact_(z3.ForAll([x], arr[x] == has(vb, x), patterns=[has(vb, x)]))
    s.fact_(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < o.len), vnum(q[i]) <= vnum(q[j])), patterns=[z3.MultiPattern(q[i], q[j])]))
    s.fact_(o.len >= 0)
    for f in o.seqfacts():
        s.fact_(f)
    return [(s, eng.alloc(s, o))]


def vd_setup(eng):
    setup(eng)
    eng.summaries["inventory.Inventory.version_directories"] = s_version_directories


@task(["C20", "C10"], "inventory.Inventory.version_numbers", setup=vd_setup)
def version_numbers(c):
    st, me, d = inventory(c)
    vb = block(d, "versions", emptyD)

    def inv(l):
        o = l.the(AccList, ListObj)
        o = o if isinstance(o, AccList) else l.eng.B.acclist(o)
        j = z3.Int("j")
        src = l.view_seq
        return [("one number per version", o.len == l.i),
                ("the numbers so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i), o.seq[j] == boxi(vnum(src(j)))), patterns=[o.seq[j]]))]
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, inv)]
    rets, raises = c.run(st, [], self_=me)
    for s, v in returns(c, rets, raises, "version_numbers"):
        o = listobj(c, s, v)
        i, j = fresh("int", "i"), fresh("int", "j")
        x = fresh("V", "x")
        c.prove(s, o.len == nk(vb), "as many as there are versions")
        c.prove(s.assume(z3.And(0 <= i, i < j, j < o.len)), iv(o.seq[i]) <= iv(o.seq[j]), "in increasing order")
        k = z3.Int("k")
        c.prove(s.assume(has(vb, x)), z3.Exists([k], z3.And(0 <= k, k < o.len, o.seq[k] == boxi(vnum(x)))), "the number of every version")


def s_logical_paths(eng, st, env, node):
    """Contract of logical_paths (proved above): the paths of the version's state."""
    me = st.heap[env["self"].oid]
    d = st.heap[me.fields["inv"].oid].fields["data"].t
    s = st.copy()
    b = named(s, state_of(d, eng.toV(me.fields["vdir"])))
    arr, x, y = fresh(SetS, "paths"), z3.Const("x", V), z3.Const("y", V)
    w = z3.Function("digest_of!%d" % int(str(arr).rsplit("!", 1)[1]), V, V)
    s.fact_(z3.ForAll([x], z3.Implies(arr[x], z3.And(has(b, w(x)), mem(get(b, w(x)), x))), patterns=[arr[x]]))
    s.fact_(z3.ForAll([x, y], z3.Implies(z3.And(has(b, y), mem(get(b, y), x)), arr[x]), patterns=[z3.MultiPattern(has(b, y), mem(get(b, y), x))]))
    return [(s, eng.alloc(s, AccList(arr, fresh("int", "len"))))]


S_cplp = z3.Function("content_path_for_logical_path", V, V, V, V)


def s_path_for_path(eng, st, env, node):
    me = st.heap[env["self"].oid]
    d = st.heap[me.fields["inv"].oid].fields["data"].t
    return [(st, Sym("V", S_cplp(d, eng.toV(me.fields["vdir"]), eng.toV(env["path"]))))]


def find_setup(eng):
    vd_setup(eng)
    eng.summaries["inventory.Version.logical_paths"] = s_logical_paths
    eng.summaries["inventory.Version.content_path_for_logical_path"] = s_path_for_path


@task("C20", "inventory.Inventory.find_logical_path", setup=find_setup)
def find(c):
    st, me, d = inventory(c)
    vb = get(d, lit("versions"))
    p = fresh("V", "path")
    st.assume_(kind(p) == KS)

    def holds(v):
        y = z3.Const("y", V)
        b = state_of(d, v)
        return z3.Exists([y], z3.And(has(b, y), mem(get(b, y), p)))

    def inv(l):
        j, y = z3.Int("j"), z3.Const("y", V)
        b = state_of(d, l.view_seq(j))
        return [("not in the versions so far", z3.ForAll([j, y], z3.Implies(z3.And(0 <= j, j < l.i, has(b, y)), z3.Not(mem(get(b, y), p))), patterns=[z3.MultiPattern(l.view_seq(j), has(get(get(vb, l.view_seq(j)), lit("state")), y))]))]
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, inv)]
    rets, raises = c.run(st, [Sym("V", p)], self_=me)
    for s, v in returns(c, rets, raises, "find_logical_path"):
        if not (isinstance(v, tuple) and len(v) == 2):
            c.prove(s, z3.BoolVal(False), "returns a pair")
            continue
        x = fresh("V", "version")
        y = fresh("V", "digest")
        t, cp = c.eng.toV(v[0]), c.eng.toV(v[1])
        b = state_of(d, x)
        s1 = s.assume(t == noneV)
        c.prove(s1, cp == noneV, "a pair of none")
        c.prove(s1.assume(z3.And(has(d, lit("versions")), has(vb, x), has(b, y))), z3.Not(mem(get(b, y), p)), "none only if no version has the path")
        s2 = s.assume(t != noneV)
        c.prove(s2, z3.And(has(d, lit("versions")), has(vb, t), holds(t)), "a version with the path")
        c.prove(s2, cp == S_cplp(d, t, p), "the content path in that version")
        c.prove(s2.assume(z3.And(has(d, lit("versions")), has(vb, x), has(b, y), mem(get(b, y), p))), vnum(x) <= vnum(t), "the latest such version")


# ---- content, construction, normalization ----
@task("C20", "inventory.Inventory.content", setup=setup)
def content(c):
    st, me, d = inventory(c)
    b = block(d, "manifest", emptyD)
    x, y = z3.Const("x", V), z3.Const("y", V)
    j = z3.Int("j")

    def outer(l):
        o = l.the(MapObj, DictObj)
        dom = c.eng.as_setarr(o)
        val = o.val if isinstance(o, MapObj) else z3.K(V, noneV)
        m = l.it
        return [("only recorded paths", z3.ForAll([x], z3.Implies(dom[x], z3.And(has(m, val[x]), kidx(m, val[x]) < l.i, mem(get(m, val[x]), x))), patterns=[dom[x]])),
                ("every path so far", z3.ForAll([j, x], z3.Implies(z3.And(0 <= j, j < l.i, mem(get(m, key(m, j)), x)), dom[x]), patterns=[mem(get(m, key(m, j)), x)]))]

    def inner(l):
        o = l.the(MapObj)
        e = l.entry.heap[[k for k in l.modobjs if isinstance(l.entry.heap[k], MapObj)][0]]
        f = l.it                              # the list of paths
        m = get(d, lit("manifest"))
        i = l.outer[0]
        return [("those before and those of the list so far", z3.ForAll([x], z3.Implies(o.dom[x], z3.Or(z3.And(e.dom[x], o.val[x] == e.val[x]),
                                                                     z3.And(mem(f, x), o.val[x] == key(m, i)))), patterns=[o.dom[x]])),
                ("nothing is lost", z3.ForAll([x], z3.Implies(e.dom[x], o.dom[x]), patterns=[e.dom[x]])),
                ("the list so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i), o.dom[at(f, j)]), patterns=[at(f, j)]))]
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: "manifest" in t, outer), LoopSpec(lambda t: True, inner)]
    rets, raises = c.run(st, [], self_=me)
    for s, v in returns(c, rets, raises, "content"):
        o = s.heap[v.oid]
        dom = c.eng.as_setarr(o)
        p, q = fresh("V", "path"), fresh("V", "digest")
        c.prove(s.assume(z3.And(has(b, q), mem(get(b, q), p))), dom[p], "every recorded path")
        if isinstance(o, MapObj):
            c.prove(s.assume(dom[p]), z3.And(has(b, o.val[p]), mem(get(b, o.val[p]), p)), "only recorded paths, with a digest under which they are recorded")
        else:
            c.prove(s, z3.BoolVal(not o.items), "an empty dict")


S_norm = z3.Function("normalized_digest", V, V, V)


def s_norm(eng, st, env, node):
    """Contract of normalized_digest (C14): depends on digest and algorithm only; a normalized digest is its own normal form."""
    t, a = eng.toV(env["digest"]), eng.toV(env.get("digest_type", "sha512"))
    r = S_norm(t, a)
    return [(st.assume(z3.And(kind(r) == KS, S_norm(r, a) == r)), Sym("V", r))]


class VersionSeq:
    """What versions() yields: one Version per version directory, in order; me stands for the one of the current round."""

    def __init__(self, me, n):
        self.me, self.n = me, n

    def view(self, eng, st, node):
        from pyvc.builtins_model import View
        return View(st.assume(self.n >= 0), self.n, lambda i: self.me)


@task(["C20", "C09"], "inventory.Inventory.normalize_digests", setup=setup)
def normalize(c):
    eng = c.eng
    st = State()
    alg = fresh("V", "digest_algorithm")
    x, y = z3.Const("x", V), z3.Const("y", V)
    j = z3.Int("j")
    eng.summaries["digest.normalized_digest"] = s_norm
    N = lambda t: S_norm(t, alg)

    def block_obj(s, name):
        """Any digest -> paths block whose digests are unique after normalization."""
        o = MapObj(fresh(SetS, name), fresh(z3.ArraySort(V, V), name + "_paths"))
        s.fact_(z3.ForAll([x, y], z3.Implies(z3.And(o.dom[x], o.dom[y], N(x) == N(y)), x == y), patterns=[z3.MultiPattern(o.dom[x], o.dom[y])]))
        s.fact_(z3.ForAll([x], z3.Implies(o.dom[x], z3.And(kind(x) == KS, N(N(x)) == N(x), kind(N(x)) == KS)), patterns=[o.dom[x]]))
        return o

    def normalized(a, b, tag):
        """b is a with its digests normalized."""
        return [(tag + "every digest is there in normal form with its paths", z3.ForAll([x], z3.Implies(a.dom[x], z3.And(b.dom[N(x)], b.val[N(x)] == a.val[x])), patterns=[a.dom[x]])),
                (tag + "no other digest", z3.ForAll([x], z3.Implies(b.dom[x], z3.And(N(x) == x, z3.Exists([y], z3.And(a.dom[y], N(y) == x)))), patterns=[b.dom[x]]))]
    man0 = block_obj(st, "manifest")
    man = eng.alloc(st, man0)
    state = eng.alloc(st, MapObj(EMPTY, man0.val))
    me = c.inst(st, "inventory", "Inventory", {"data": None})
    ver = c.inst(st, "inventory", "Version", {"inv": me, "vdir": Sym("V", fresh("V", "vdir"))})
    eng.summaries["inventory.Inventory.manifest"] = lambda e, s, env, node: [(s, man)]
    eng.summaries["inventory.Version.state"] = lambda e, s, env, node: [(s, state)]
    eng.summaries["inventory.Inventory.versions"] = lambda e, s, env, node: [(s, VersionSeq(ver, fresh("int", "versions")))]
    # nothing else is within reach of the function: the data itself is not an input here

    def collect(l):
        o = l.the(MapObj, DictObj)
        dom = eng.as_setarr(o)
        val = o.val if isinstance(o, MapObj) else z3.K(V, noneV)
        e = lambda k: l.elem(k).t
        return [("exactly the digests so far that change", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i), dom[e(j)] == (N(e(j)) != e(j))), patterns=[e(j)])),
                ("of the block", z3.ForAll([x], z3.Implies(dom[x], z3.And(l.it[x], N(x) != x, val[x] == N(x))), patterns=[dom[x]]))]

    def move(l):
        o = l.the(MapObj)
        a = [l.entry.heap[k] for k in l.modobjs if isinstance(l.entry.heap[k], MapObj)][0]
        e = lambda k: l.elem(k)[0].t
        moved = lambda t, k: z3.And(0 <= k, k < l.i, e(k) == t)
        return [("digests not yet moved", z3.ForAll([j], z3.Implies(z3.And(l.i <= j, j < l.n), z3.And(o.dom[e(j)], o.val[e(j)] == a.val[e(j)])), patterns=[e(j)])),
                ("moved digests", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i), z3.And(z3.Not(o.dom[e(j)]), o.dom[N(e(j))], o.val[N(e(j))] == a.val[e(j)])), patterns=[e(j)])),
                ("normal digests stay", z3.ForAll([x], z3.Implies(z3.And(a.dom[x], N(x) == x), z3.And(o.dom[x], o.val[x] == a.val[x])), patterns=[a.dom[x]])),
                ("no other digest", z3.ForAll([x], z3.Implies(o.dom[x], z3.Or(a.dom[x], z3.Exists([j], z3.And(0 <= j, j < l.i, N(e(j)) == x)))), patterns=[o.dom[x]]))]
    first = {}

    def start(l):
        l.st.heap[state.oid] = first["s"] = block_obj(l.st, "state")

    def end(l):
        return normalized(first["s"], l.st.heap[state.oid], "state: ")
    eng.loops[c.t.func] = [LoopSpec(lambda t: "versions" in t, start=start, end=end), LoopSpec(lambda t: "from_to" in t or ".items()" in t, move), LoopSpec(lambda t: True, collect)]
    rets, raises = c.run(st, [Sym("V", alg)], self_=me)
    for s, v in returns(c, rets, raises, "normalize_digests"):
        for nm, f in normalized(man0, s.heap[man.oid], "manifest: "):
            c.prove(s, f, nm)
