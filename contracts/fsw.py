"""C16: file comparison, copy, tree walk and directory copy (ocfl/fsw.py)."""
import z3

from pyvc.engine import LoopSpec, State, LostAnnotation
from pyvc.files import FileObj, b_pre, slen
from pyvc.fsmodel import FsV, Storage, FileOut, storage, ContS
from pyvc.builtins_model import s_nseg, s_segat, s_suf
from pyvc.task import task
from pyvc.values import Sym, SetObj, MapObj, AccList, ListObj, Opaque, V, fresh, kind, lit, KS, KL, SetS, Unsupported, EMPTY

M = "fsw."


def X(*names):
    return z3.Consts(" ".join(names), V)


def begin():
    return State()


def path(st, name):
    p = fresh("V", name)
    st.assume_(kind(p) == KS)
    return p


def in_step(c):
    """Two files read in step: same position, same bytes so far."""
    fs = [o for o in c.st.heap.values() if isinstance(o, FileObj) and o.pos is not None]
    if len(fs) != 2:
        raise LostAnnotation("two files expected")
    a, b = fs
    return [("positions within the files", z3.And(0 <= a.pos, a.pos <= slen(a.content), a.pos == b.pos, b.pos <= slen(b.content))),
            ("same bytes so far", b_pre(a.content, a.pos) == b_pre(b.content, b.pos))]


@task("C16", M + "fsw_files_identical", clause="True exactly when the bytes are equal")
def identical(c):
    st = begin()
    fs, S = storage(c.eng, st)
    f1, f2 = path(st, "file1"), path(st, "file2")
    st.assume_(z3.And(z3.Not(S.dirs[f1]), z3.Not(S.dirs[f2])))
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, in_step)]
    c.eng.split_returns = True
    rets, raises = c.run(st, [fs, Sym("V", f1), Sym("V", f2)])
    for s, e in raises:
        if e.name != "FileNotFoundError":
            c.eng.unreachable(s, "only FileNotFoundError is raised (not %s)" % e.name)
        c.prove(s, z3.Not(z3.And(S.files[f1], S.files[f2])), "refused only when a file is missing")
    for s1, r in rets:
        for s, b in c.eng.truth(s1, r):
            c.cover_any(s, "comparison %s" % b)
            c.prove(s, z3.And(S.files[f1], S.files[f2]), "a missing file is refused")
            c.prove(s, (S.content[f1] == S.content[f2]) == z3.BoolVal(b), "the verdict is %s exactly when it should" % b)
            c.prove(s, s.heap[fs.ref.oid].touched == S.touched, "nothing is written")


def copied_so_far(c):
    r = [o for o in c.st.heap.values() if isinstance(o, FileObj) and o.pos is not None]
    w = [o for o in c.st.heap.values() if isinstance(o, FileObj) and o.written is not None]
    if len(r) != 1 or len(w) != 1:
        raise LostAnnotation("one file read and one written expected")
    return [("position within the file", z3.And(0 <= r[0].pos, r[0].pos <= slen(r[0].content))),
            ("written what was read", w[0].written == b_pre(r[0].content, r[0].pos))]


@task(["C16", "C09", "C13"], M + "fsw_copyfile", clause="the whole content, and nothing else")
def copyfile(c):
    for one in (False, True):
        st = begin()
        src, S = storage(c.eng, st, "src")
        dst, D = (src, S) if one else storage(c.eng, st, "dst")
        p, q = path(st, "src_path"), path(st, "dst_path")
        st.assume_(z3.Not(S.dirs[p]))
        if one:
            st.assume_(p != q)
        c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, copied_so_far)]
        rets, raises = c.run(st, [src, Sym("V", p), dst, Sym("V", q)])
        for s, e in raises:
            if e.name != "FileNotFoundError":
                c.eng.unreachable(s, "only FileNotFoundError is raised (not %s)" % e.name)
            c.prove(s, z3.Not(S.files[p]), "refused only when the source is missing")
        for s, r in rets:
            c.cover(s, "copied")
            A, B = s.heap[src.ref.oid], s.heap[dst.ref.oid]
            c.prove(s, S.files[p], "a missing source is refused")
            c.prove(s, z3.And(B.files[q], B.content[q] == S.content[p]), "the destination has the bytes of the source")
            x = fresh("V", "x")
            c.prove(s.assume(x != q), z3.And(B.content[x] == D.content[x], B.files[x] == D.files[x], B.touched[x] == D.touched[x]), "no other file is written")
            if not one:
                c.prove(s, z3.And(A.touched == S.touched, A.content == S.content, A.files == S.files), "the source filesystem is not written")


# ---- texts of paths ----
J = z3.Function("os_join2", V, V, V)                   # os.path.join of two
ch = z3.Function("path_child", V, V, V)                # a + "/" + b
tl = z3.Function("path_tail", V, V, V)                 # tl(a, a + "/" + b) = b
strip = z3.Function("str_lstrip1", V, V, V)            # text.lstrip(characters)
cat = z3.Function("str_concat2", V, V, V)
starts = z3.Function("str_startswith", V, V, z3.BoolSort())
ends = z3.Function("str_endswith", V, V, z3.BoolSort())
dirname = z3.Function("os_dirname", V, V)
par = z3.Function("path_parent", V, V)
depth = z3.Function("path_depth", V, z3.IntSort())
last = z3.Function("path_name", V, V)                  # the last segment
SL, NO, DOT = lit("/"), lit(""), lit(".")


def root(d):
    return strip(d, SL)


def below(d, x):
    """x is d + "/" + something."""
    return x == ch(d, tl(d, x))


def within(d, x):
    return z3.Or(x == d, below(d, x))


def clean(d):
    """A spelling of a directory the functions work with: no slash at the end, except for the root."""
    return z3.And(kind(d) == KS, z3.Or(d == SL, z3.Not(ends(d, SL))))


def relative(r):
    """A relative path: not empty, no slash at either end."""
    return z3.And(kind(r) == KS, r != NO, root(r) == r, z3.Not(ends(r, SL)))


def rel_ok(p, s):
    p, s = root(p), root(s)
    return z3.Or(s == NO, within(s, p))


rel = z3.Function("relative_path", V, V, V)


def rel_is(p, s):
    """What _fsw_relpath gives."""
    p, s = root(p), root(s)
    return z3.If(s == NO, p, z3.If(p == s, NO, tl(s, p)))


def spelled(d, s):
    """A directory below s, as the walk spells it."""
    return z3.And(clean(d), d != NO, rel_ok(d, s), z3.Or(rel(d, s) == NO, relative(rel(d, s))))


def at(d, x):
    """The entry x of directory d, without leading slash."""
    return z3.If(root(d) == NO, x, ch(root(d), x))


def text_facts(st):
    a, b, x = X("a", "b", "c")
    A = z3.ForAll
    fs = [A([a, b], z3.And(kind(ch(a, b)) == KS, tl(a, ch(a, b)) == b, ch(a, b) != a, ch(a, b) != NO), patterns=[ch(a, b)]),
          A([a, b], kind(tl(a, b)) == KS, patterns=[tl(a, b)]),
          A([a, b], kind(cat(a, b)) == KS, patterns=[cat(a, b)]),
          A([a, b, x], ch(ch(a, b), x) == ch(a, ch(b, x)), patterns=[ch(ch(a, b), x)]),
          A([a, b, x], ch(ch(a, b), x) == ch(a, ch(b, x)), patterns=[ch(a, ch(b, x))]),
          A([a], z3.And(kind(root(a)) == KS, root(root(a)) == root(a)), patterns=[root(a)]),
          A([a, b], z3.Implies(root(a) != NO, root(ch(a, b)) == ch(root(a), b)), patterns=[root(ch(a, b))]),
          A([a, b], z3.Implies(z3.And(relative(b)), z3.Not(ends(ch(a, b), SL))), patterns=[ch(a, b)]),
          A([a, b], z3.Implies(z3.And(z3.Not(ends(ch(a, b), SL)), ch(a, b) == root(ch(a, b)), kind(b) == KS, root(b) == b), relative(b)), patterns=[ch(a, b)]),
          A([b], z3.And(root(cat(SL, b)) == root(b), ends(cat(SL, b), SL) == z3.Or(b == NO, ends(b, SL)), cat(SL, b) != NO, cat(SL, NO) == SL), patterns=[cat(SL, b)]),
          # os.path.join of a directory and a relative path
          A([a, b], z3.Implies(z3.And(clean(a), relative(b)), J(a, b) == z3.If(a == NO, b, z3.If(a == SL, cat(SL, b), ch(a, b)))), patterns=[J(a, b)]),
          # a text that is only slashes ends in one
          A([a], z3.Implies(root(a) != NO, ends(root(a), SL) == ends(a, SL)), patterns=[root(a)]),
          A([a], z3.Implies(z3.And(root(a) == NO, z3.Not(ends(a, SL))), a == NO), patterns=[root(a)]),
          z3.And(z3.Not(starts(NO, SL)), starts(SL, SL), root(SL) == NO, root(NO) == NO, z3.Not(ends(NO, SL)), ends(SL, SL), kind(SL) == KS, kind(NO) == KS, SL != NO)]
    fs.append(A([a, b], last(ch(a, b)) == last(b), patterns=[ch(a, b)]))
    fs.append(A([a], last(root(a)) == last(a), patterns=[root(a)]))
    fs.append(last(DOT) == DOT)
    fs.append(A([a, b], z3.And(rel(a, b) == rel_is(a, b), kind(rel(a, b)) == KS), patterns=[rel(a, b)]))
    for f in fs:
        st.fact_(f)


def split_facts(st):
    """Splitting a text at the slashes, comparing and joining the segments."""
    s, p, r = X("s", "p", "r")
    i = z3.Int("i")
    df = z3.Function("first_difference", V, V, z3.IntSort())
    n = s_nseg(s, SL)
    st.fact_(z3.ForAll([p], s_nseg(p, SL) >= 1, patterns=[s_nseg(p, SL)]))
    st.fact_(z3.ForAll([s, p], z3.Or(z3.And(0 <= df(s, p), df(s, p) < n, s_segat(s, SL, df(s, p)) != s_segat(p, SL, df(s, p))), n > s_nseg(p, SL), within(s, p)), patterns=[z3.MultiPattern(s_nseg(s, SL), s_nseg(p, SL))]))
    st.fact_(z3.ForAll([s, r, i], z3.Implies(z3.And(0 <= i, i < n), s_segat(ch(s, r), SL, i) == s_segat(s, SL, i)), patterns=[z3.MultiPattern(ch(s, r), s_segat(s, SL, i))]))
    st.fact_(z3.ForAll([s, r], z3.And(s_nseg(ch(s, r), SL) == n + s_nseg(r, SL), s_suf(ch(s, r), SL, n) == r), patterns=[ch(s, r)]))
    st.fact_(z3.ForAll([s], s_suf(s, SL, n) == NO, patterns=[n]))


@task(["C16", "C13"], M + "_fsw_relpath", clause="the text after the start, or refused")
def relpath(c):
    st = begin()
    text_facts(st)
    split_facts(st)
    p, s = path(st, "path"), path(st, "start")
    P, S = root(p), root(s)
    st.assume_(z3.Or(below(S, P), z3.Not(below(S, P))))
    d = fresh("int", "d")

    def same(l):
        i = z3.Int("i")
        return [("the segments so far are the same", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.i), s_segat(S, SL, i) == s_segat(P, SL, i)), patterns=[s_segat(S, SL, i)]))]
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, same)]
    rets, raises = c.run(st, [Sym("V", p), Sym("V", s)])
    for t, e in raises:
        if e.name != "ValueError":
            c.eng.unreachable(t, "only ValueError is raised (not %s)" % e.name)
        c.prove(t, z3.Not(rel_ok(p, s)), "refused only when the start is not a prefix of the path")
    for t, r in rets:
        c.cover_any(t, "result")
        c.prove(t, rel_ok(p, s), "refused when the start is not a prefix of the path")
        c.prove(t, c.eng.toV(r) == rel(p, s), "the path after the start")


def s_relpath(eng, st, env, node):
    p, s = eng.toV(env["path"]), eng.toV(env["start"])
    st = eng.raise_if(st, z3.Not(rel_ok(p, s)), ValueError)
    return [(st.assume(kind(rel(p, s)) == KS), Sym("V", rel(p, s)))] if st is not None else []


# ---- listing and walking ----
cnt = z3.Function("listing_count", V, z3.IntSort())    # number of entries of a directory
ent = z3.Function("listing_entry", V, z3.IntSort(), V)
idx = z3.Function("listing_index", V, V, z3.IntSort())
etype = z3.Function("entry_type", V, V, V)
DIR = lit("directory")
kept = z3.Function("directories_kept", V, SetS)        # directory -> the subdirectories the consumer leaves in the list


def full(p, x):
    """What a listing of p (no leading slash) calls its entry x."""
    return z3.If(x == NO, p, z3.If(p == NO, x, ch(p, x)))


def real(x):
    return z3.And(x != lit(".."), x != lit("."), x != NO)


def kid(p, x):
    return z3.And(0 <= idx(p, x), idx(p, x) < cnt(p), ent(p, idx(p, x)) == x)


def subdir(d, x):
    return z3.And(kid(root(d), x), real(x), etype(root(d), x) == DIR)


def file_in(d, x):
    return z3.And(kid(root(d), x), real(x), etype(root(d), x) != DIR)


def path_facts(st):
    text_facts(st)
    d, x = X("d", "x")
    i = z3.Int("i")
    fs = [z3.ForAll([d, i], z3.Implies(z3.And(0 <= i, i < cnt(d)), z3.And(idx(d, ent(d, i)) == i, kind(ent(d, i)) == KS, z3.Or(ent(d, i) == NO, z3.And(relative(ent(d, i)), last(ent(d, i)) == ent(d, i))))), patterns=[ent(d, i)]),
          z3.ForAll([d], cnt(d) >= 0, patterns=[cnt(d)]),
          z3.ForAll([d, x], kind(etype(d, x)) == KS, patterns=[etype(d, x)]),
          z3.ForAll([d, x], z3.Implies(z3.And(clean(d), d != NO, kid(root(d), x), real(x)), z3.And(par(J(d, x)) == d, depth(J(d, x)) == depth(d) + 1)), patterns=[J(d, x)])]
    for f in fs:
        st.fact_(f)


class Entry:
    """One entry of a listing with details."""

    def __init__(self, p, i):
        self.p, self.i = p, i

    def getitem(self, eng, st, a, k, node):
        n = ent(self.p, self.i)
        if k == "name":
            return [(st, Sym("V", full(self.p, n)))]
        if k == "type":
            return [(st, Sym("V", etype(self.p, n)))]
        raise Unsupported("entry item %r" % (k,), node)


class Listing:
    def __init__(self, p, detail):
        self.p, self.detail = p, detail

    def view(self, eng, st, node):
        from pyvc.builtins_model import View
        return View(st, cnt(self.p), (lambda i: Entry(self.p, i)) if self.detail else (lambda i: Sym("V", full(self.p, ent(self.p, i)))), pats=lambda j: [ent(self.p, j)])


class ListFs:
    """A filesystem of which only listings are used."""

    def getattr(self, eng, st, name, node):
        from pyvc.values import Bound
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return [(st, True)]

    def method(self, eng, st, name, a, kw, node):
        if name in ("listdir", "ls"):
            detail = a[1] if len(a) > 1 else kw.get("detail", True)
            if detail not in (True, False):
                raise Unsupported("listing detail", node)
            return [(st, Listing(eng.toV(a[0]), detail))]
        raise Unsupported("filesystem method " + name, node)


def yielded(c, k):
    """Name of the k-th part of what the generator yields."""
    import ast
    f = c.repo.find(c.t.func)[2]
    ys = [n for n in ast.walk(f) if isinstance(n, ast.Yield)]
    if len(ys) != 1 or not isinstance(ys[0].value, ast.Tuple) or not isinstance(ys[0].value.elts[k], ast.Name):
        raise LostAnnotation("one yield of a tuple of names expected")
    return ys[0].value.elts[k].id


def aslist(l, o):
    return l.eng.B.acclist(o) if isinstance(o, ListObj) else o


def waits(q):
    """The elements of a list are what is in it."""
    x, i = z3.Const("x", V), z3.Int("i")
    return z3.And(q.len >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q.len), q.arr[q.seq[i]])),
                  z3.ForAll([x], z3.Implies(q.arr[x], z3.Exists([i], z3.And(0 <= i, i < q.len, q.seq[i] == x)))))


@task(["C16", "C12", "C13"], M + "fsw_walk", clause="every directory not pruned once, with all its files and directories")
def walk(c):
    eng = c.eng
    eng.summaries[M + "_fsw_relpath"] = s_relpath
    st = begin()
    path_facts(st)
    d0 = path(st, "dir")
    st.assume_(clean(d0))
    visited = eng.alloc(st, SetObj(EMPTY))
    d, x, y = X("d", "x", "y")
    i, j = z3.Ints("i j")
    st.fact_(z3.ForAll([d, x], z3.Implies(kept(d)[x], subdir(d, x)), patterns=[kept(d)[x]]))
    reach = fresh(SetS, "reachable")
    st.fact_(z3.ForAll([d, x], z3.Implies(z3.And(reach[d], kept(d)[x]), reach[J(d, x)]), patterns=[z3.MultiPattern(reach[d], kept(d)[x])]))
    c.start = None

    def consumer(e, s, v, node):
        if not (isinstance(v, tuple) and len(v) == 3):
            raise Unsupported("yielded value", node)
        dp = e.toV(v[0])
        D, F = [s.heap[r.oid] for r in v[1:]]
        D, F = [e.B.acclist(o) if isinstance(o, ListObj) else o for o in (D, F)]
        z = fresh("V", "z")
        vis = s.heap[visited.oid].arr
        e.prove(s, z3.Not(vis[dp]), "a directory is visited once", node)
        e.prove(s, z3.Implies(reach[c.start], reach[dp]) if c.start is not None else reach[dp], "only directories that are reached are visited", node)
        e.prove(s, D.arr[z] == subdir(dp, z), "the directories are those of the listing", node)
        e.prove(s, F.arr[z] == file_in(dp, z), "the files are those of the listing", node)
        for o, w in ((D, "directory"), (F, "file")):
            a, b = fresh("int", "a"), fresh("int", "b")
            e.prove(s, z3.Implies(z3.And(0 <= a, a < b, b < o.len), o.seq[a] != o.seq[b]), "no %s is listed twice" % w, node)
        s = s.copy()
        n, q = fresh("int", "len"), fresh(D.seq.sort(), "seq")
        new = AccList(kept(dp), n, D.births, q)
        s.fact_(n >= 0)
        for f in new.seqfacts():
            s.fact_(f)
        s.fact_(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), q[i] != q[j]), patterns=[z3.MultiPattern(q[i], q[j])]))
        s.heap[v[1].oid] = new
        s.heap[visited.oid] = SetObj(z3.Store(vis, dp, z3.BoolVal(True)))
        s.ghost["~visiting"] = dp
        return [s]
    eng.on_yield = consumer
    st.ghost["~visiting"] = fresh("V", "none")

    def outer(l):
        if c.start is None:
            o = l.entry.heap[[k for k in l.modobjs if k != visited.oid and isinstance(l.entry.heap.get(k), AccList)][0]]
            c.start = z3.simplify(o.seq[0])
        q = [l.st.heap[k] for k in l.modobjs if isinstance(l.entry.heap.get(k), AccList)]
        if len(q) != 1:
            raise LostAnnotation("one stack expected")
        q = q[0]
        vis = l.st.heap[visited.oid].arr
        s = c.start
        return [("no directory is waiting twice", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < q.len), q.seq[i] != q.seq[j]))),
                ("the waiting directories", waits(q)),
                ("the waiting directories are well spelled", z3.ForAll([x], z3.Implies(z3.Or(vis[x], q.arr[x]), spelled(x, s)))),
                ("the directories below the start have names", z3.ForAll([x], z3.Implies(z3.Or(vis[x], q.arr[x]), z3.Or(x == s, last(x) != DOT)))),
                ("no waiting directory was visited", z3.ForAll([x], z3.Not(z3.And(q.arr[x], vis[x])))),
                ("the start is visited or waiting", z3.Or(vis[s], q.arr[s])),
                ("what was left in is visited or waiting", z3.ForAll([d, x], z3.Implies(z3.And(vis[d], kept(d)[x]), z3.Or(vis[J(d, x)], q.arr[J(d, x)])), patterns=[z3.MultiPattern(vis[d], kept(d)[x])] if z3.is_const(vis) else [])),
                ("only what is reached", z3.Implies(reach[s], z3.ForAll([x], z3.Implies(z3.Or(vis[x], q.arr[x]), reach[x])))),
                ("below the start", z3.ForAll([x], z3.Implies(z3.Or(vis[x], q.arr[x]), depth(x) >= depth(s)))),
                ("parents were visited", z3.ForAll([x], z3.Implies(z3.And(z3.Or(vis[x], q.arr[x]), x != s), vis[par(x)])))]

    def listed(l):
        ls = [l.obj(yielded(c, k)) for k in (1, 2)]
        D, F = [aslist(l, o) for o in ls]
        p = l.st.ghost["~list"] if "~list" in l.st.ghost else None
        p = l.elem(0).p
        out = []
        for o, w, t in ((D, "directories", lambda z: etype(p, z) == DIR), (F, "files", lambda z: etype(p, z) != DIR)):
            out += [(w + " so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i, real(ent(p, j)), t(ent(p, j))), o.arr[ent(p, j)]), patterns=[ent(p, j)])),
                    ("only %s so far" % w, z3.ForAll([x], z3.Implies(o.arr[x], z3.And(kid(p, x), idx(p, x) < l.i, real(x), t(x))))),
                    ("list of the " + w, z3.And(o.len >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.len), o.arr[o.seq[i]])))),
                    ("the %s are distinct" % w, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < o.len), o.seq[i] != o.seq[j])))]
        return out

    def pushed(l):
        q, q0 = l.the(AccList), None
        for k in l.modobjs:
            if isinstance(l.entry.heap.get(k), AccList):
                q0 = l.entry.heap[k]
        dp = l.st.ghost["~visiting"]
        e = l.view_seq
        return [("one more for every directory", q.len == q0.len + l.i),
                ("the old ones stay", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q0.len), q.seq[i] == q0.seq[i]), patterns=[q.seq[i], q0.seq[i]])),
                ("the new ones are the directories so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i), z3.And(q.seq[q0.len + j] == J(dp, e(j)), q.arr[J(dp, e(j))])), patterns=[e(j)])),
                ("the new ones are at the end", z3.ForAll([j], z3.Implies(z3.And(q0.len <= j, j < q.len), q.seq[j] == J(dp, e(j - q0.len))), patterns=[q.seq[j]])),
                ("the old ones are waiting", z3.ForAll([x], z3.Implies(q0.arr[x], q.arr[x]))),
                ("nothing else is waiting", z3.ForAll([x], z3.Implies(q.arr[x], z3.Or(q0.arr[x], z3.Exists([j], z3.And(0 <= j, j < l.i, x == J(dp, e(j))))))))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: "listdir" in t or ".ls(" in t, listed), LoopSpec(lambda t: True, outer, depth=0), LoopSpec(lambda t: True, pushed)]
    rets, raises = c.run(st, [ListFs(), Sym("V", d0)])
    for s, e in raises:
        eng.unreachable(s, "no exception")
    for s, r in rets:
        c.cover_any(s, "walked")
        vis = s.heap[visited.oid].arr
        dd, xx = fresh("V", "d"), fresh("V", "x")
        c.prove(s, vis[c.start], "the start is visited")
        c.prove(s, z3.And(root(c.start) == root(d0), clean(c.start), c.start != NO), "the start is the given directory")
        c.prove(s, z3.Implies(z3.And(vis[dd], kept(dd)[xx]), vis[J(dd, xx)]), "every directory left in the list is visited")
        c.prove(s, z3.Implies(z3.And(reach[c.start], vis[dd]), reach[dd]), "only directories that are reached are visited")
        c.prove(s, z3.Implies(vis[dd], z3.And(spelled(dd, c.start), z3.Or(dd == c.start, last(dd) != DOT))), "every directory visited is below the start")


filesof = z3.Function("files_in", V, SetS)
fseq = z3.Function("files_seq", V, z3.ArraySort(z3.IntSort(), V))
fcount = z3.Function("files_count", V, z3.IntSort())
visit = z3.Function("walk_directory", V, z3.IntSort(), V)      # (start, round) -> directory visited
visits = z3.Function("walk_count", V, z3.IntSort())
visited_at = z3.Function("walk_round", V, V, z3.IntSort())


def visited_in(s, d):
    k = visited_at(s, d)
    return z3.And(0 <= k, k < visits(s), visit(s, k) == d)


def walk_facts(st, s):
    """What the contract of fsw_walk says when no directory is pruned: s is the start."""
    k, j = z3.Ints("k j")
    d, x = X("d", "x")
    st.fact_(visits(s) >= 0)
    st.fact_(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < visits(s)), z3.And(visited_at(s, visit(s, k)) == k, spelled(visit(s, k), s), z3.Or(visit(s, k) == s, last(visit(s, k)) != DOT))), patterns=[visit(s, k)]))
    st.fact_(visited_in(s, s))
    st.fact_(z3.ForAll([d, x], filesof(d)[x] == file_in(d, x), patterns=[filesof(d)[x]]))
    st.fact_(z3.ForAll([d], fcount(d) >= 0, patterns=[fcount(d)]))
    st.fact_(z3.ForAll([d, j], z3.Implies(z3.And(0 <= j, j < fcount(d)), filesof(d)[fseq(d)[j]]), patterns=[fseq(d)[j]]))
    fp = z3.Function("files_index", V, V, z3.IntSort())
    st.fact_(z3.ForAll([d, x], z3.Implies(filesof(d)[x], z3.And(0 <= fp(d, x), fp(d, x) < fcount(d), fseq(d)[fp(d, x)] == x)), patterns=[filesof(d)[x]]))


class Walk:
    def __init__(self, s):
        self.s = s

    def view(self, eng, st, node):
        from pyvc.builtins_model import View
        s = self.s

        def elem(k):
            d = visit(s, k)
            return (Sym("V", d), Opaque("directories"), FilesOf(d))
        return View(st, visits(s), elem, pats=lambda k: [visit(s, k)])


class FilesOf:
    """The list of the files of a directory."""

    def __init__(self, d):
        self.d = d

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", fcount(self.d) > 0))

    def len_(self, eng, st, node):
        return [(st, Sym("int", fcount(self.d)))]

    def view(self, eng, st, node):
        from pyvc.builtins_model import View
        d = self.d
        return View(st, fcount(d), lambda j: Sym("V", fseq(d)[j]), pats=lambda j: [fseq(d)[j]], member=lambda y: filesof(d)[y])


def s_walk(eng, st, env, node):
    d0 = eng.toV(env["dir"])
    eng.prove(st, clean(d0), "the directory to walk has no slash at its end", node)
    s = z3.If(starts(d0, SL), d0, cat(SL, d0))
    st = st.copy()
    n = fresh("V", "start")
    st.fact_(z3.And(n == s, root(n) == root(d0), clean(n), n != NO))
    walk_facts(st, n)
    eng.walk_start = n
    return [(st, Walk(n))]


def listed(s, d0, z, k, x):
    """z is the path, relative to d0, of the file x in the directory visited in round k."""
    return z3.And(0 <= k, k < visits(s), filesof(visit(s, k))[x], z == J(rel(visit(s, k), d0), x))


@task(["C16", "C13"], M + "fsw_walk_files", clause="the path of every file below the start, and nothing else")
def walk_files(c):
    eng = c.eng
    eng.summaries[M + "_fsw_relpath"] = s_relpath
    eng.summaries[M + "fsw_walk"] = s_walk
    st = begin()
    path_facts(st)
    d0 = path(st, "dir")
    st.assume_(clean(d0))
    z, x = X("z", "x")
    k = z3.Int("k")

    def sofar(l):
        a = l.the(AccList)
        s = eng.walk_start
        return [("the paths of the files so far", z3.ForAll([k, x], z3.Implies(z3.And(0 <= k, k < l.i, filesof(visit(s, k))[x]), a.arr[J(rel(visit(s, k), d0), x)]), patterns=[filesof(visit(s, k))[x]])),
                ("only such paths", z3.ForAll([z], z3.Implies(a.arr[z], z3.Exists([k, x], z3.And(k < l.i, listed(s, d0, z, k, x))))))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, sofar)]
    rets, raises = c.run(st, [ListFs(), Sym("V", d0)])
    for s, e in raises:
        eng.unreachable(s, "no exception")
    for s, r in rets:
        c.cover_any(s, "list")
        a = s.heap[r.oid]
        s0 = eng.walk_start
        zz, xx, kk = fresh("V", "z"), fresh("V", "x"), fresh("int", "k")
        D = visit(s0, kk)
        c.prove(s, z3.Implies(z3.And(0 <= kk, kk < visits(s0), filesof(D)[xx]), a.arr[J(rel(D, d0), xx)]), "every file is listed")
        c.prove(s, z3.Implies(a.arr[zz], z3.Exists([k, x], listed(s0, d0, zz, k, x))), "only files are listed")
        c.prove(s, z3.Implies(listed(s0, d0, zz, kk, xx), z3.And(relative(zz), root(J(d0, zz)) == at(D, xx))), "the path, under the start, is that of the file")


def lemma_join(d, s, x):
    return z3.Implies(z3.And(spelled(d, s), relative(x)), z3.And(spelled(J(d, x), s), root(J(d, x)) == at(d, x), last(J(d, x)) == last(x)))


def lemma_under(d, s, x):
    """The path of x relative to the start, put under the start, is the path of x."""
    r = J(rel(d, s), x)
    return z3.Implies(z3.And(clean(s), spelled(d, s), relative(x), last(x) == x, z3.Or(rel(d, s) == NO, relative(rel(d, s)))), z3.And(relative(r), root(J(s, r)) == at(d, x)))


@task(["C16", "C13"], M + "fsw_walk_files", clause="lemmas on joined paths")
def lemmas(c):
    st = begin()
    text_facts(st)
    d, s, x = fresh("V", "d"), fresh("V", "s"), fresh("V", "x")
    c.prove(st, lemma_join(d, s, x), "an entry below the start")
    c.prove(st, lemma_under(d, s, x), "relative path under the start")


@task(["C16", "C18"], M + "fsw_listdir_names", clause="the names of the directory")
def listdir_names(c):
    eng = c.eng
    eng.summaries[M + "_fsw_relpath"] = s_relpath
    st = begin()
    path_facts(st)
    d0 = path(st, "path")
    st.assume_(clean(d0))
    x, j = z3.Const("x", V), z3.Int("j")
    p = root(d0)

    def sofar(l):
        a = l.the(AccList)
        return [("the names so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i, ent(p, j) != NO), a.arr[ent(p, j)]), patterns=[ent(p, j)])),
                ("only such names", z3.ForAll([x], z3.Implies(a.arr[x], z3.And(kid(p, x), x != NO))))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, sofar)]
    rets, raises = c.run(st, [ListFs(), Sym("V", d0)])
    for s, e in raises:
        eng.unreachable(s, "no exception")
    for s, r in rets:
        c.cover_any(s, "names")
        a = s.heap[r.oid].arr
        xx = fresh("V", "x")
        c.prove(s, a[xx] == z3.And(kid(p, xx), xx != NO), "exactly the names of the directory")


# ---- copying a directory ----
def s_walk_files(fs_of):
    """The contract of fsw_walk_files: relative paths, each of which is a file under the start."""
    def f(eng, st, env, node):
        d = eng.toV(env["dir"])
        eng.prove(st, clean(d), "the directory to walk has no slash at its end", node)
        S = st.heap[env["fs"].ref.oid]
        st = st.copy()
        n = fresh("int", "files")
        R, q = fresh(SetS, "paths"), fresh(z3.ArraySort(z3.IntSort(), V), "paths_seq")
        a = AccList(R, n, (), q)
        x = z3.Const("x", V)
        st.fact_(n >= 0)
        for g in a.seqfacts():
            st.fact_(g)
        st.fact_(z3.ForAll([x], z3.Implies(R[x], z3.And(relative(x), S.files[J(d, x)])), patterns=[R[x]]))
        eng.listed_files = R
        return [(st, eng.alloc(st, a))]
    return f


def s_copyfile(eng, st, env, node):
    p, q = eng.toV(env["src_path"]), eng.toV(env["dst_path"])
    A, same = st.heap[env["src_fs"].ref.oid], env["src_fs"] == env["dst_fs"]
    eng.prove(st, z3.Not(A.dirs[p]), "what is copied is no directory", node)
    if same:
        eng.prove(st, p != q, "a file is not copied to itself", node)
    st = eng.raise_if(st, z3.Not(A.files[p]), FileNotFoundError)
    if st is None:
        return []
    st = st.copy()
    B = st.heap[env["dst_fs"].ref.oid]
    st.heap[env["dst_fs"].ref.oid] = B.write(q, A.content[p])
    return [(st, None)]


@task(["C16", "C13"], M + "fsw_copydir", clause="every file at the same relative path, nothing outside, no existing destination")
def copydir(c):
    eng = c.eng
    for one in (False, True):
        st = begin()
        text_facts(st)
        src, S = storage(eng, st, "src")
        dst, D = (src, S) if one else storage(eng, st, "dst")
        p, q = path(st, "src_path"), path(st, "dst_path")
        st.assume_(z3.And(clean(p), clean(q), root(p) == p, root(q) == q, q != NO))
        x, y = X("x", "y")
        # nothing is below what does not exist
        st.fact_(z3.ForAll([x], z3.Implies(z3.And(z3.Or(D.files[x], D.dirs[x]), below(q, x)), z3.Or(D.dirs[q], D.files[q])), patterns=[D.files[x]]))
        st.fact_(z3.ForAll([x, y], z3.And(kind(dirname(x)) == KS, z3.Implies(z3.And(x == ch(q, y), relative(y)), within(q, dirname(x)))), patterns=[z3.MultiPattern(dirname(x), ch(q, y))]))
        eng.summaries[M + "fsw_walk_files"] = s_walk_files(None)
        eng.summaries[M + "fsw_copyfile"] = s_copyfile
        j = z3.Int("j")

        def sofar(l):
            A, B = l.st.heap[src.ref.oid], l.st.heap[dst.ref.oid]
            e = l.view_seq
            return [("the files so far are copied", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i), z3.And(B.files[J(q, e(j))], B.content[J(q, e(j))] == S.content[J(p, e(j))])), patterns=[e(j)])),
                    ("nothing outside the destination is written", z3.ForAll([x], z3.Implies(B.touched[x], within(q, x)))),
                    ("the rest is as it was", z3.ForAll([x], z3.Implies(z3.Not(within(q, x)), z3.And(B.files[x] == D.files[x], B.content[x] == D.content[x])))),
                    ("no file below the destination in the beginning", z3.ForAll([x], z3.Implies(z3.And(D.files[x]), z3.Not(within(q, x))))),
                    ("the source is as it was", z3.ForAll([x], z3.Implies(S.files[x], z3.And(A.files[x], A.content[x] == S.content[x], z3.Not(A.dirs[x])))))] + \
                   ([] if one else [("the source is not written", z3.And(A.touched == S.touched, A.content == S.content, A.files == S.files))])
        eng.loops[c.t.func] = [LoopSpec(lambda t: True, sofar)]
        rets, raises = c.run(st, [src, Sym("V", p), dst, Sym("V", q)])
        for s, e in raises:
            if e.name != "FswException":
                eng.unreachable(s, "only FswException is raised (not %s)" % e.name)
            B = s.heap[dst.ref.oid]
            c.prove(s, z3.Or(z3.Not(S.dirs[p]), D.dirs[q], D.files[q]), "refused only without a source or with a destination")
            c.prove(s, z3.And(B.touched == D.touched, B.content == D.content), "nothing is written when the copy is refused")
        for s, r in rets:
            c.cover_any(s, "copied")
            A, B = s.heap[src.ref.oid], s.heap[dst.ref.oid]
            z = fresh("V", "z")
            c.prove(s, z3.And(S.dirs[p], z3.Not(D.dirs[q]), z3.Not(D.files[q])), "refused without a source or with a destination")
            R = eng.listed_files
            c.prove(s, z3.Implies(R[z], z3.And(B.files[J(q, z)], B.content[J(q, z)] == S.content[J(p, z)])), "every file is copied with its bytes")
            c.prove(s, z3.Implies(B.touched[z], within(q, z)), "nothing outside the destination is written")
            c.prove(s, z3.Implies(z3.Not(within(q, z)), z3.And(B.files[z] == D.files[z], B.content[z] == D.content[z])), "no file outside the destination changes")
            if not one:
                c.prove(s, z3.And(A.touched == S.touched, A.content == S.content, A.files == S.files), "the source is not written")
