"""C06: editing a new version (ocfl/new_version.py, ocfl/inventory.py)."""
import z3

from pyvc.engine import LoopSpec, State, LostAnnotation
from pyvc.pathmap import PMap, PList, VersV, newmaps, Maps
from pyvc.builtins_model import s_starts, vconcat
from pyvc.task import task
from pyvc.values import (Bound, Sym, Opaque, Ref, Exc, Inst, ListObj, AccList, MapObj, SetObj, DictObj, V, fresh, kind, lit, noneV, KS, KL, KD, IntS, BoolS, SetS, EMPTY)

D = z3.Function("digest_of_file", V, V, V, V)        # filesystem, path, algorithm


class Edit:
    """A new version being edited: names for its parts."""


def under(e, p):
    return s_starts(p, vconcat([e.h, lit("/")]))


def assume_sound(st, S, e, f2c):
    """The invariant that every operation keeps, for the inventory before it."""
    h = e.h
    v, d, p = z3.Consts("v d p", V)
    wit = z3.Function("content_of", V, V, V)
    own, sown, swit = z3.Function("digest_of_content", V, V), z3.Function("digest_of_logical", V, V), z3.Function("logical_of", V, V)
    e.wit, e.own, e.sown = wit, own, sown
    st.assume_(z3.And(kind(h) == KS, S.vers[h], S.hasst[h], kind(e.cd) == KS))
    A = lambda vs, body, pats: st.fact_(z3.ForAll(vs, body, patterns=pats))
    A([d], z3.Implies(S.mdom[d], kind(d) == KS), [S.mdom[d]])
    A([d, p], z3.Implies(S.mmem[d][p], z3.And(kind(p) == KS, S.mdom[d], own(p) == d)), [S.mmem[d][p]])
    A([v, d], z3.Implies(S.sdom[v][d], kind(d) == KS), [S.sdom[v][d]])
    A([v, d, p], z3.Implies(S.smem[v][d][p], z3.And(S.sdom[v][d], kind(p) == KS)), [S.smem[v][d][p]])
    A([d, p], z3.Implies(S.smem[h][d][p], sown(p) == d), [S.smem[h][d][p]])
    A([d], z3.Implies(S.sdom[h][d], S.smem[h][d][swit(d)]), [S.sdom[h][d]])
    A([v, d], z3.Implies(z3.And(S.vers[v], S.sdom[v][d]), z3.And(S.mdom[d], S.mmem[d][wit(v, d)], z3.Implies(v != h, z3.Not(under(e, wit(v, d)))))), [S.sdom[v][d]])
    if f2c is not None:
        A([p], z3.Implies(f2c.dom[p], z3.And(S.mmem[own(p)][p], under(e, p))), [f2c.dom[p]])
        A([d, p], z3.Implies(z3.And(S.mmem[d][p], under(e, p)), f2c.dom[p]), [S.mmem[d][p]])


def prove_sound(c, s, e, T, f2c, special=None, skip=()):
    """The invariant afterwards. special: a digest whose content is shown apart."""
    h = e.h
    v, d, p, q = [fresh("V", n) for n in "vdpq"]
    d2 = fresh("V", "d")
    P = lambda hyp, goal, name: c.prove(s.assume(hyp), goal, "sound: " + name) if name not in skip else None
    P(z3.And(T.mdom[d]), kind(d) == KS, "digests are strings")
    P(T.mmem[d][p], z3.And(kind(p) == KS, T.mdom[d]), "content paths are recorded under a digest")
    P(z3.And(T.mmem[d][p], T.mmem[d2][p]), d == d2, "no content path under two digests")
    P(z3.And(T.smem[v][d][p], T.vers[v]), z3.And(T.sdom[v][d], kind(p) == KS, kind(d) == KS), "logical paths are recorded under a digest")
    P(z3.And(T.smem[h][d][p], T.smem[h][d2][p]), d == d2, "no logical path under two digests of the new version")
    y = z3.Const("y", V)
    x = e.wit(v, d)
    P(z3.And(v != h, T.vers[v], T.sdom[v][d]), z3.And(T.mdom[d], T.mmem[d][x], z3.Not(under(e, x))), "every digest of an earlier state has an earlier content path")
    P(z3.And(T.sdom[h][d], z3.BoolVal(True) if special is None else d != special), z3.And(T.mdom[d], z3.substitute(T.mmem[d][x], (v, h))), "every digest of the new state has a content path")
    P(T.sdom[h][d], z3.Exists([y], T.smem[h][d][y]), "no digest of the state without a logical path")
    if f2c is not None:
        P(f2c.dom[p], z3.And(under(e, p), z3.Exists([y], T.mmem[y][p])), "only new content paths of the manifest are copied")
        P(z3.And(T.mmem[d][p], under(e, p)), f2c.dom[p], "every new content path of the manifest is copied")
    c.prove(s, z3.And(T.vers[h], T.hasst[h]), "sound: the new version is there")


def new_version(c, with_cd=True):
    """Any new version in progress. Returns its state and the names of its parts."""
    st = State()
    e = Edit()
    e.ref, e.S = newmaps(c.eng, st)
    e.h, e.cd, e.alg = fresh("V", "head"), fresh("V", "contentdir"), fresh("V", "alg")
    st.assume_(kind(e.alg) == KS)
    e.f2c = MapObj(fresh(SetS, "tocopy"), fresh(z3.ArraySort(V, V), "source"))
    e.f2cref = c.eng.alloc(st, e.f2c)
    e.fwd, e.dedupe, e.norm = fresh("bool", "forward_delta"), fresh("bool", "dedupe"), fresh("V", "normalization")
    assume_sound(st, e.S, e, e.f2c)
    data = {"id": Sym("V", fresh("V", "id")), "type": Sym("V", fresh("V", "type")), "digestAlgorithm": Sym("V", e.alg), "head": Sym("V", e.h),
            "manifest": PMap(e.ref), "versions": VersV(e.ref), "contentDirectory": Sym("V", e.cd)}
    e.dataref = c.eng.alloc(st, DictObj(data))
    e.inv = c.inst(st, "inventory", "Inventory", {"data": e.dataref})
    e.fs = fresh("V", "srcfs")
    e.me = c.inst(st, "new_version", "NewVersion", {"inventory": e.inv, "srcdir": Opaque("srcdir"), "src_fs": Sym("V", e.fs), "content_path_normalization": Sym("V", e.norm),
                                                    "forward_delta": Sym("bool", e.fwd), "dedupe": Sym("bool", e.dedupe), "old_digest_algorithm": None, "files_to_copy": e.f2cref})
    # a text that starts with head/contentdir/ starts with head/
    p = z3.Const("p", V)
    pre = vconcat([e.h, lit("/"), e.cd, lit("/")])
    st.fact_(z3.ForAll([p], z3.Implies(s_starts(p, pre), under(e, p)), patterns=[s_starts(p, pre)]))
    c.eng.split_returns = True
    return st, e


def maps(s, e):
    return s.heap[e.ref.oid]


def copies(s, e):
    m = s.heap[s.heap[e.me.oid].fields["files_to_copy"].oid]
    return m


def s_content_paths(eng, st, env, node):
    """Contract of Inventory.content_paths (proved for C20): all paths of the manifest."""
    pm = manifest_of(eng, st, env["self"], node)
    S = st.heap[pm.ref.oid]
    return paths_of(eng, st, S.mdom, S.mmem)


def paths_of(eng, st, dom, mem):
    st = st.copy()
    arr, own = fresh(SetS, "paths"), z3.Function("entry!%d" % next(_n), V, V)
    x, d = z3.Consts("x d", V)
    st.fact_(z3.ForAll([x], z3.Implies(arr[x], z3.And(dom[own(x)], mem[own(x)][x])), patterns=[arr[x]]))
    st.fact_(z3.ForAll([x, d], z3.Implies(z3.And(dom[d], mem[d][x]), arr[x]), patterns=[mem[d][x]]))
    n, w = fresh("int", "npaths"), fresh("V", "w")
    st.fact_(z3.And(n >= 0, z3.Implies(n >= 1, arr[w]), z3.ForAll([x], z3.Implies(arr[x], n >= 1), patterns=[arr[x]])))
    return [(st, eng.alloc(st, AccList(arr, n)))]


import itertools
_n = itertools.count()


def manifest_of(eng, st, inv, node):
    d = st.heap[st.heap[inv.oid].fields["data"].oid].items.get("manifest")
    if not isinstance(d, PMap):
        from pyvc.values import Unsupported
        raise Unsupported("the manifest of this inventory is not modelled", node)
    return d


def state_of(eng, st, me, node):
    """(dom, mem) of the state of a Version object; both empty if it has none."""
    o = st.heap[me.oid]
    pm = manifest_of(eng, st, o.fields["inv"], node)
    S, v = st.heap[pm.ref.oid], eng.toV(o.fields["vdir"])
    return S, v


def s_logical_paths(eng, st, env, node):
    """Contract of Version.logical_paths (proved for C20)."""
    S, v = state_of(eng, st, env["self"], node)
    has, no = eng.fork(st, z3.And(S.vers[v], S.hasst[v]))
    out = []
    if has is not None:
        out += paths_of(eng, has, S.sdom[v], S.smem[v])
    if no is not None:
        no = no.copy()
        out.append((no, eng.alloc(no, ListObj())))
    return out


def s_digest_for(eng, st, env, node):
    """Contract of Version.digest_for_logical_path (proved for C20)."""
    S, v = state_of(eng, st, env["self"], node)
    p = eng.toV(env["path"])
    has, no = eng.fork(st, z3.And(S.vers[v], S.hasst[v]))
    out = []
    if has is not None:
        t, x = fresh("V", "digest"), z3.Const("x", V)
        y, n = has.assume(z3.And(S.sdom[v][t], S.smem[v][t][p], kind(t) == KS)), has.copy()
        n.assume_(z3.ForAll([x], z3.Not(z3.And(S.sdom[v][x], S.smem[v][x][p])), patterns=[S.sdom[v][x]]))
        out += [(y, Sym("V", t)), (n, None)]
    if no is not None:
        out.append((no, None))
    return out


def s_file_digest(eng, st, env, node):
    """Contract of file_digest (proved for C14): a digest that the bytes and the algorithm determine; it may fail."""
    bad = fresh("bool", "unreadable")
    st = eng.raise_if(st, bad, Exc(OSError))
    if st is None:
        return []
    fs = env.get("fs")
    t = D(eng.toV(fs), eng.toV(env["filename"]), eng.toV(env["digest_type"]))
    return [(st.assume(kind(t) == KS), Sym("V", t))]


MAPPED = z3.Const("mapped_content_path", V)


def s_map_filepath(eng, st, env, node):
    """Contract of _map_filepath (proved below): a path that is not a content path yet, or an exception."""
    st = eng.raise_if(st, fresh("bool", "unknown_normalization"), Exc(new_version_exception(eng)))
    if st is None:
        return []
    pm = manifest_of(eng, st, st.heap[env["self"].oid].fields["inventory"], node)
    S = st.heap[pm.ref.oid]
    d = z3.Const("d", V)
    st = st.copy()
    st.fact_(z3.ForAll([d], z3.Not(z3.And(S.mdom[d], S.mmem[d][MAPPED])), patterns=[S.mmem[d][MAPPED]]))
    st.assume_(kind(MAPPED) == KS)
    return [(st, Sym("V", MAPPED))]


def new_version_exception(eng):
    return eng.repo.module("new_version").classes["NewVersionException"]


def setup(eng):
    eng.summaries["inventory.Inventory.content_paths"] = s_content_paths
    eng.summaries["inventory.Version.logical_paths"] = s_logical_paths
    eng.summaries["inventory.Version.digest_for_logical_path"] = s_digest_for
    eng.summaries["digest.file_digest"] = s_file_digest
    eng.summaries["new_version.NewVersion._map_filepath"] = s_map_filepath
    for q in ("new_version.NewVersion.add", "new_version.NewVersion.delete", "inventory.Version.delete_logical_path"):
        eng.loops[q] = [LoopSpec(lambda t: True)]


def unchanged(c, s, e, what):
    """Nothing of the inventory and of the files to be copied is different."""
    T, S, m = maps(s, e), e.S, copies(s, e)
    v, d, p = [fresh("V", n) for n in "vdp"]
    c.prove(s, z3.And(T.mdom[d] == S.mdom[d], z3.Implies(S.mdom[d], T.mmem[d][p] == S.mmem[d][p])), what + ": the manifest is as before")
    c.prove(s, z3.And(T.vers[v] == S.vers[v], T.hasst[v] == S.hasst[v], T.sdom[v][d] == S.sdom[v][d], T.smem[v][d][p] == S.smem[v][d][p]), what + ": the states are as before")
    c.prove(s, z3.And(m.dom[p] == e.f2c.dom[p], z3.Implies(m.dom[p], m.val[p] == e.f2c.val[p])), what + ": the files to be copied are as before")
    same_data(c, s, e, what)


def same_data(c, s, e, what):
    o = s.heap[e.dataref.oid]
    for k in ("head", "digestAlgorithm", "contentDirectory", "id", "type"):
        if k not in o.items or not isinstance(o.items[k], Sym):
            c.prove(s, z3.BoolVal(False), what + ": " + k + " is as before")
        else:
            c.prove(s, o.items[k].t == maps0(e, k), what + ": " + k + " is as before")
    ok = isinstance(o.items.get("manifest"), PMap) and o.items["manifest"].v is None and isinstance(o.items.get("versions"), VersV)
    if not ok:
        from pyvc.values import Unsupported
        raise Unsupported("manifest or versions block replaced")


def maps0(e, k):
    return e.data0[k]


def refused(c, raises, e, allowed=None):
    for s, x in raises:
        unchanged(c, s, e, "refused")


def start(c):
    st, e = new_version(c)
    e.data0 = {k: v.t for k, v in st.heap[e.dataref.oid].items.items() if isinstance(v, Sym)}
    return st, e


def others(c, s, e, what):
    """Every other version's state, and what else is recorded, is as before."""
    T, S = maps(s, e), e.S
    v, d, p = [fresh("V", n) for n in "vdp"]
    c.prove(s.assume(v != e.h), z3.And(T.vers[v] == S.vers[v], T.hasst[v] == S.hasst[v], T.sdom[v][d] == S.sdom[v][d], T.smem[v][d][p] == S.smem[v][d][p]), "earlier versions are as before")
    c.prove(s.assume(z3.And(S.mdom[d], S.mmem[d][p], z3.Not(under(e, p)))), z3.And(T.mdom[d], T.mmem[d][p]), "content paths of earlier versions stay under their digest")
    same_data(c, s, e, what)


@task("C06", "new_version.NewVersion.add", setup=setup, timeout=30.0)
def add(c):
    for given in (False, True):
        st, e = start(c)
        src, lp = fresh("V", "src_path"), fresh("V", "logical_path")
        st.assume_(z3.And(kind(src) == KS, kind(lp) == KS))
        cp = MAPPED
        args = [Sym("V", src), Sym("V", lp)]
        if given:
            cp = fresh("V", "content_path")
            st.assume_(kind(cp) == KS)
            args.append(Sym("V", cp))
        rets, raises = c.run(st, args, self_=e.me)
        S = e.S
        dg = D(e.fs, src, e.alg)
        w = "content path given" if given else "content path made"
        refused(c, raises, e)
        d, p, y = fresh("V", "d"), fresh("V", "p"), z3.Const("y", V)
        cur = z3.Exists([y], z3.And(S.mmem[dg][y], under(e, y)))
        prev = z3.Exists([y], z3.And(S.mmem[dg][y], z3.Not(under(e, y))))
        copied = z3.Or(z3.And(z3.Not(prev), z3.Not(cur)), z3.And(z3.Not(cur), z3.Not(e.fwd)), z3.And(cur, z3.Not(e.dedupe)))
        for s, _ in rets:
            c.cover_any(s, "added, " + w)
            T, m = maps(s, e), copies(s, e)
            others(c, s, e, "added")
            c.prove(s.assume(S.sdom[e.h][d]), z3.Not(S.smem[e.h][d][lp]), "an existing logical path is refused")
            c.prove(s, z3.And(T.sdom[e.h][d] == z3.Or(S.sdom[e.h][d], d == dg), T.smem[e.h][d][p] == z3.Or(S.smem[e.h][d][p], z3.And(d == dg, p == lp))), "the state gains the logical path under the digest of the file, nothing else")
            if given:
                c.prove(s.assume(z3.And(S.mdom[d], S.mmem[d][cp])), z3.BoolVal(False), "a content path in use is refused")
                c.prove(s, s_starts(cp, vconcat([e.h, lit("/"), e.cd, lit("/")])), "a content path outside the new version's content directory is refused")
            for yes in (True, False):
                s2 = s.assume(copied if yes else z3.Not(copied))
                if yes:
                    c.prove(s2, z3.And(T.mdom[d] == z3.Or(S.mdom[d], d == dg), T.mmem[d][p] == z3.Or(S.mmem[d][p], z3.And(d == dg, p == cp))), "the content path is recorded when a copy is made")
                    c.prove(s2, z3.And(m.dom[p] == z3.Or(e.f2c.dom[p], p == cp), z3.Implies(m.dom[p], m.val[p] == z3.If(p == cp, src, e.f2c.val[p]))), "the file is to be copied there")
                else:
                    c.prove(s2, z3.And(T.mdom[d] == S.mdom[d], T.mmem[d][p] == S.mmem[d][p]), "no content path is recorded when no copy is needed")
                    c.prove(s2, z3.And(m.dom[p] == e.f2c.dom[p], z3.Implies(m.dom[p], m.val[p] == e.f2c.val[p])), "no further file is to be copied")
                c.prove(s2, T.mmem[dg][cp] if yes else z3.Exists([y], S.mmem[dg][y]), "sound: the digest of the file has a content path")
            prove_sound(c, s, e, T, m, dg)


@task("C06", "new_version.NewVersion.rename", setup=setup, timeout=30.0)
def rename(c):
    st, e = start(c)
    old, new = fresh("V", "old"), fresh("V", "new")
    st.assume_(z3.And(kind(old) == KS, kind(new) == KS))
    rets, raises = c.run(st, [Sym("V", old), Sym("V", new)], self_=e.me)
    refused(c, raises, e)
    S, h = e.S, e.h
    d, p, y = fresh("V", "d"), fresh("V", "p"), z3.Const("y", V)
    for s, _ in rets:
        c.cover_any(s, "renamed")
        T, m = maps(s, e), copies(s, e)
        others(c, s, e, "renamed")
        c.prove(s.assume(S.sdom[h][d]), z3.Not(S.smem[h][d][new]), "an existing new path is refused")
        c.prove(s, z3.Exists([y], S.smem[h][y][old]), "a missing old path is refused")
        c.prove(s, z3.And(T.sdom[h][d] == S.sdom[h][d],
                          T.smem[h][d][p] == z3.Or(z3.And(S.smem[h][d][p], p != old), z3.And(p == new, S.smem[h][d][old]))), "the path is exchanged, the digest kept, nothing else")
        c.prove(s, z3.And(T.mdom[d] == S.mdom[d], T.mmem[d][p] == S.mmem[d][p]), "the manifest is as before")
        c.prove(s, z3.And(m.dom[p] == e.f2c.dom[p], z3.Implies(m.dom[p], m.val[p] == e.f2c.val[p])), "the files to be copied are as before")
        prove_sound(c, s, e, T, m)


def kept_inv(e):
    """The inner loop of delete_logical_path: the paths so far that are not of the new version."""
    def inv(l):
        o = l.the(AccList, ListObj)
        o = o if isinstance(o, AccList) else l.eng.B.acclist(o)
        x, j = z3.Const("x", V), z3.Int("j")
        el = l.view_seq
        src = l.it
        out = [("only paths of other versions", z3.ForAll([x], z3.Implies(o.arr[x], z3.And(src[x], z3.Not(under(e, x)), o.len >= 1)), patterns=[o.arr[x]])),
               ("all of them so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i, z3.Not(under(e, el(j)))), o.arr[el(j)]), patterns=[el(j)])),
               ("length", z3.And(o.len >= 0, z3.Implies(o.len >= 1, z3.Exists([x], o.arr[x]))))]
        return out
    return inv


def copies_inv(e):
    """The loop of delete: files no longer recorded are dropped."""
    def inv(l):
        m, m0 = l.the(MapObj), [l.entry.heap[o] for o in l.modobjs if isinstance(l.entry.heap.get(o), MapObj)][0]
        S = l.st.heap[e.ref.oid]
        x, d, j = z3.Const("x", V), z3.Const("d", V), z3.Int("j")
        el = l.view_seq
        return [("only dropped", z3.ForAll([x], z3.And(z3.Implies(m.dom[x], m0.dom[x]), z3.Implies(m.dom[x], m.val[x] == m0.val[x])), patterns=[m.dom[x]])),
                ("what is recorded is kept", z3.ForAll([x, d], z3.Implies(z3.And(m0.dom[x], S.mmem[d][x], S.mdom[d]), m.dom[x]), patterns=[z3.MultiPattern(m0.dom[x], S.mmem[d][x])])),
                ("the rest is dropped so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.i, m.dom[el(j)]), z3.Exists([d], z3.And(S.mmem[d][el(j)], S.mdom[d]))), patterns=[el(j)])),
                ("to come", z3.ForAll([j], z3.Implies(z3.And(l.i <= j, j < l.n), m.dom[el(j)]), patterns=[el(j)]))]
    return inv


@task("C06", "new_version.NewVersion.delete", setup=setup, timeout=30.0)
def delete(c):
    st, e = start(c)
    lp = fresh("V", "logical_path")
    st.assume_(kind(lp) == KS)
    c.eng.split_paths = True
    c.eng.loops["inventory.Version.delete_logical_path"] = [LoopSpec(lambda t: True, kept_inv(e), depth=1), LoopSpec(lambda t: True)]
    c.eng.loops["new_version.NewVersion.delete"] = [LoopSpec(lambda t: True, copies_inv(e))]
    rets, raises = c.run(st, [Sym("V", lp)], self_=e.me)
    refused(c, raises, e)
    S, h = e.S, e.h
    d, p, y = fresh("V", "d"), fresh("V", "p"), z3.Const("y", V)
    for s, _ in rets:
        c.cover_any(s, "deleted")
        T, m = maps(s, e), copies(s, e)
        others(c, s, e, "deleted")
        c.prove(s, z3.Exists([y], S.smem[h][y][lp]), "a missing path is refused")
        c.prove(s, T.smem[h][d][p] == z3.And(S.smem[h][d][p], p != lp), "the path goes, nothing else")
        c.prove(s, T.sdom[h][d] == z3.Exists([y], T.smem[h][d][y]), "the digest goes with its last path")
        c.prove(s.assume(T.mdom[d]), S.mdom[d], "no new digest in the manifest")
        c.prove(s.assume(T.mmem[d][p]), S.mmem[d][p], "no new content path in the manifest")
        c.prove(s.assume(z3.And(S.mmem[d][p], z3.Not(S.smem[h][d][lp]))), T.mmem[d][p], "content of other files stays")
        c.prove(s.assume(z3.And(S.mmem[d][p], T.sdom[h][d])), T.mmem[d][p], "content still in use stays")
        c.prove(s.assume(z3.And(S.mmem[d][p], z3.Not(T.mmem[d][p]))), z3.And(S.smem[h][d][lp], z3.Not(T.sdom[h][d]), under(e, p)), "only new content of the deleted file goes")
        c.prove(s.assume(z3.And(m.dom[p], z3.Not(e.f2c.dom[p]))), z3.BoolVal(False), "no further file is to be copied")
        c.prove(s.assume(m.dom[p]), m.val[p] == e.f2c.val[p], "sources as before")
        prove_sound(c, s, e, T, m, skip=("no digest of the state without a logical path",))


@task("C06", "object_utils.make_unused_filepath", setup=setup)
def unused(c):
    st = State()
    p, U = fresh("V", "filepath"), fresh(SetS, "used")
    st.assume_(kind(p) == KS)
    used = c.eng.alloc(st, AccList(U, fresh("int", "n")))
    def inv(l):
        f = l.texts()
        if not f:
            raise LostAnnotation("the path that is tried")
        return [("the path, with something appended: %d" % k, z3.And(kind(x) == KS, s_starts(x, p), z3.Implies(z3.Not(U[p]), x == p))) for k, x in enumerate(f)]
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, inv)]
    st.fact_(s_starts(p, p))
    for n in (2, 3, 4):
        ps = [fresh("V", "part") for _ in range(n)]
        st.fact_(z3.ForAll(ps, s_starts(vconcat(ps), ps[0]), patterns=[vconcat(ps)]))
    rets, raises = c.run(st, [Sym("V", p), used])
    for s, v in rets:
        t = c.eng.toV(v)
        c.cover(s, "found")
        c.prove(s, z3.Not(U[t]), "not used yet")
        c.prove(s, kind(t) == KS, "a text")
        c.prove(s.assume(z3.Not(U[p])), t == p, "the path itself if that is not used")
        c.prove(s, s_starts(t, p), "the path, with something appended")
    for s, x in raises:
        c.prove(s, z3.BoolVal(False), "no exception")


class Hash:
    """A hash object: its digests are texts."""
    types = ["hash"]

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def method(self, eng, st, name, a, kw, node):
        t = fresh("V", "hexdigest")
        return [(st.assume(kind(t) == KS), Sym("V", t))]

    def same_val(self, o):
        return isinstance(o, Hash)


def map_setup(eng):
    setup(eng)
    del eng.summaries["new_version.NewVersion._map_filepath"]

    def text(name):
        def f(eng, st, a, kw, node):
            t = fresh("V", name)
            return [(st.assume(kind(t) == KS), Sym("V", t))]
        return f
    eng.ext["urllib.parse.quote"] = text("quoted")
    eng.ext["os.path.join"] = text("joined")
    eng.ext["hashlib.md5"] = lambda eng, st, a, kw, node: [(st, Hash())]

    def s_unused(eng, st, env, node):
        """Contract of make_unused_filepath (proved above)."""
        U = eng.as_setarr(st.heap[env["used"].oid])
        t = fresh("V", "unused")
        return [(st.assume(z3.And(kind(t) == KS, z3.Not(U[t]), z3.Implies(z3.Not(U[eng.toV(env["filepath"])]), t == eng.toV(env["filepath"])))), Sym("V", t))]
    eng.summaries["object_utils.make_unused_filepath"] = s_unused


@task("C06", "new_version.NewVersion._map_filepath", setup=map_setup)
def map_filepath(c):
    st, e = start(c)
    fp = fresh("V", "filepath")
    st.assume_(kind(fp) == KS)
    rets, raises = c.run(st, [Sym("V", fp)], self_=e.me)
    d = fresh("V", "d")
    for s, v in rets:
        t = c.eng.toV(v)
        c.cover_any(s, "mapped")
        c.prove(s, z3.Not(z3.And(e.S.mdom[d], e.S.mmem[d][t])), "not a content path yet")
        c.prove(s, kind(t) == KS, "a text")
        unchanged(c, s, e, "mapped")
    refused(c, raises, e)


def next_setup(eng):
    setup(eng)

    def s_next_dir(eng, st, env, node):
        """Contract of Inventory._next_version_directory (from C10 and C20: the name after the last version): a version that is not there."""
        pm = manifest_of(eng, st, env["self"], node)
        t = NEXT
        return [(st.assume(z3.And(kind(t) == KS, z3.Not(st.heap[pm.ref.oid].vers[t]))), Sym("V", t))]
    eng.summaries["inventory.Inventory._next_version_directory"] = s_next_dir
    eng.summaries["fsw.fsw_openfs"] = lambda eng, st, env, node: [(st, Opaque("source filesystem"))]
    eng.summaries["version_metadata.VersionMetadata.as_dict"] = lambda eng, st, env, node: metadata_dict(eng, st)
    eng.ext["copy.deepcopy"] = deepcopy
    for q in ("inventory.Inventory.spec_version",):
        eng.summaries[q] = lambda eng, st, env, node: [(st, Sym("V", SPEC))]
    eng.summaries["inventory.Inventory.spec_version!set"] = set_spec


NEXT, SPEC = z3.Const("next_version", V), z3.Const("spec_version", V)


def metadata_dict(eng, st):
    st = st.copy()
    return [(st, eng.alloc(st, DictObj({"created": Opaque("created"), "message": Opaque("message"), "user": Opaque("user")})))]


def deepcopy(eng, st, a, kw, node):
    if hasattr(a[0], "deepcopy"):
        return a[0].deepcopy(eng, st)
    if isinstance(a[0], Ref) and isinstance(st.heap[a[0].oid], DictObj) and not st.heap[a[0].oid].items:
        st = st.copy()
        return [(st, eng.alloc(st, DictObj({})))]
    from pyvc.values import Unsupported
    raise Unsupported("copy of %r" % (a[0],), node)


def set_spec(eng, st, env, node):
    st = st.copy()
    d = st.heap[env["self"].oid].fields["data"]
    items = dict(st.heap[d.oid].items)
    items["type"] = Sym("V", fresh("V", "type"))
    st.heap[d.oid] = DictObj(items)
    return [(st, None)]


@task("C06", "new_version.NewVersion.next_version", setup=next_setup, timeout=30.0)
def next_version(c):
    for carry in (False, True):
        for meta in (False, True):
            st, e = start(c)
            S, h = e.S, e.h
            v, d, p = z3.Consts("v d p", V)
            # a valid inventory: content paths belong to a version that is there, so none to the next one
            e2 = Edit()
            e2.h, e2.cd, e2.alg, e2.wit, e2.own, e2.sown, e2.f2c = NEXT, e.cd, e.alg, e.wit, e.own, e.sown, None
            st.fact_(z3.ForAll([d, p], z3.Implies(S.mmem[d][p], z3.Not(under(e2, p))), patterns=[S.mmem[d][p]]))
            st.assume_(z3.And(kind(SPEC) == KS, e.h != NEXT))
            me = c.eng.repo.module("new_version").classes["NewVersion"]
            kw = {"inventory": e.inv, "carry_content_forward": carry, "spec_version": Sym("V", fresh("V", "want")), "forward_delta": Sym("bool", e.fwd), "dedupe": Sym("bool", e.dedupe)}
            st.assume_(kind(kw["spec_version"].t) == KS)
            if meta:
                kw["metadata"] = c.inst(st, "version_metadata", "VersionMetadata", {})
            from pyvc.values import ClassV
            rets, raises = c.run(st, [], kw, self_=ClassV(me))
            w = "%s, %s metadata" % ("state carried forward" if carry else "empty state", "with" if meta else "no")
            for s, _ in raises:
                T = maps(s, e)
                c.prove(s, z3.BoolVal(all(a.eq(b) for a, b in zip(T.parts(), S.parts()))), "refused: nothing is changed")
            for s, nv in rets:
                c.cover_any(s, "started, " + w)
                T = maps(s, e)
                f = s.heap[nv.oid].fields
                if not (isinstance(f.get("inventory"), Ref) and f["inventory"] == e.inv):
                    c.prove(s, z3.BoolVal(False), "the version edits the inventory given")
                    continue
                v, d, p, d2 = [fresh("V", n) for n in ("v", "d", "p", "d2")]
                dat = s.heap[e.dataref.oid].items
                c.prove(s, c.eng.toV(dat["head"]) == NEXT, "the new version is the head")
                c.prove(s, z3.And(T.mdom[d] == S.mdom[d], T.mmem[d][p] == S.mmem[d][p]), "the manifest is as before")
                c.prove(s.assume(v != NEXT), z3.And(T.vers[v] == S.vers[v], T.hasst[v] == S.hasst[v], T.sdom[v][d] == S.sdom[v][d], T.smem[v][d][p] == S.smem[v][d][p]), "earlier versions are as before")
                c.prove(s, z3.And(T.vers[NEXT], T.hasst[NEXT]), "the new version is there")
                if carry:
                    c.prove(s, z3.And(T.sdom[NEXT][d] == S.sdom[h][d], z3.Implies(S.sdom[h][d], T.smem[NEXT][d][p] == S.smem[h][d][p])), "its state is the one of the version before")
                else:
                    c.prove(s, z3.Not(T.sdom[NEXT][d]), "its state is empty")
                # the invariant that every edit keeps
                c.prove(s.assume(z3.And(T.vers[v], T.sdom[v][d])), z3.And(T.mdom[d], z3.Exists([p], T.mmem[d][p])), "sound: every digest of any state has a content path")
                c.prove(s.assume(T.smem[NEXT][d][p]), z3.And(T.sdom[NEXT][d], kind(p) == KS), "sound: logical paths are recorded under a digest")
                c.prove(s.assume(z3.And(T.smem[NEXT][d][p], T.smem[NEXT][d2][p])), d == d2, "sound: no logical path under two digests of the new version")
                m = s.heap[f["files_to_copy"].oid]
                c.prove(s, z3.Not(c.eng.as_setarr(m)[p]), "nothing is to be copied yet")
                same = lambda n, t: c.prove(s, c.eng.toV(f[n]) == t if not isinstance(t, z3.BoolRef) else (f[n].t if isinstance(f[n], Sym) else z3.BoolVal(bool(f[n]))) == t, "option %s is taken over" % n)
                same("forward_delta", e.fwd)
                same("dedupe", e.dedupe)
