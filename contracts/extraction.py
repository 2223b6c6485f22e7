"""C09: extracting a version of an object (ocfl/object.py, ocfl/version_metadata.py)."""
import z3

from pyvc import values as V_
from pyvc.engine import LoopSpec, State
from pyvc.fsmodel import storage
from pyvc.task import task
from pyvc.values import Bound, Sym, Opaque, Union, Exc, V, fresh, kind, lit, noneV, KS, KD, KL, IntS, BoolS, at, jlen, has, get, key, kidx, nk, SetS, Unsupported

DOC, VER, LPATH = z3.Const("inventory", V), z3.Const("version_asked_for", V), z3.Const("logical_path_asked_for", V)
dg = z3.Function("digest_of_logical_path", V, V, V)            # state, logical path -> its digest
li = z3.Function("index_of_logical_path", V, V, IntS)
LP = z3.Function("logical_path_of", V, V, BoolS)               # state, logical path
x, y = z3.Consts("x y", V)
j, k = z3.Ints("j k")
MAN, VERS, STATE = lit("manifest"), lit("versions"), lit("state")
PARENT, BASE, DST, OBJDIR, NAME = [z3.Const(t, V) for t in ("parent_of_destination", "name_of_destination", "destination", "object_location", "base_name")]
PTHERE, NENT, SETUP, SRCOK, INVOK = z3.Const("parent_opens", BoolS), z3.Const("entries_of_destination", IntS), z3.Const("object_and_version_sound", BoolS), z3.Const("object_opens", BoolS), z3.Const("inventory_valid", BoolS)


def block(v):
    return get(get(DOC, VERS), v)


def state(v):
    return get(block(v), STATE)


def valid(st, S):
    """What validity of the inventory (C01, C02) and of the object (C04) gives for the version VER, digests normalized (C20)."""
    T, M = state(VER), get(DOC, MAN)
    st.assume_(z3.And(kind(DOC) == KD, DOC != noneV, has(DOC, MAN), kind(M) == KD, has(DOC, VERS), kind(get(DOC, VERS)) == KD, kind(VER) == KS, has(get(DOC, VERS), VER), kind(block(VER)) == KD,
                      has(block(VER), STATE), kind(T) == KD))
    A = lambda vs, b, p: st.fact_(z3.ForAll(vs, b, patterns=[p]))
    A([x], z3.Implies(has(T, x), z3.And(kind(x) == KS, kind(get(T, x)) == KL, has(M, x))), has(T, x))
    A([x], z3.Implies(has(M, x), z3.And(kind(get(M, x)) == KL, jlen(get(M, x)) >= 1)), has(M, x))
    first = at(get(M, x), 0)
    A([x], z3.Implies(has(M, x), z3.And(kind(first) == KS, S.files[first])), first)
    e = at(get(T, x), j)
    A([x, j], z3.Implies(z3.And(has(T, x), 0 <= j, j < jlen(get(T, x))), z3.And(kind(e) == KS, LP(T, e), dg(T, e) == x, li(T, e) == j)), e)
    A([y], z3.Implies(LP(T, y), z3.And(has(T, dg(T, y)), 0 <= li(T, y), li(T, y) < jlen(get(T, dg(T, y))), at(get(T, dg(T, y)), li(T, y)) == y)), LP(T, y))
    return T, M


def same_fs(v, fs):
    if isinstance(v, Union):
        return z3.Or(*[g for g, a in v.alts if a == fs])
    return z3.BoolVal(v == fs)


def exc(eng, mod="object_utils", name="ObjectException"):
    return eng.repo.module(mod).classes[name]


class Names:
    """The names in the destination."""

    def len_(self, eng, st, node):
        return [(st, Sym("int", NENT))]

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", NENT > 0))

    def same_val(self, o):
        return isinstance(o, Names)


def place(c, st):
    eng = c.eng
    obj, S0 = storage(eng, st, "object")
    dst, D0 = storage(eng, st, "destination")
    par, P0 = storage(eng, st, "parent")
    T, M = valid(st, S0)
    inv = c.inst(st, "inventory", "Inventory", {"data": Sym("V", DOC)})
    me = c.inst(st, "object", "Object", {"obj_fs": None, "spec_version": None})
    eng.frozen = "extraction does not change the inventory"

    def s_setup(eng, st, env, node):
        eng.prove(st, z3.And(eng.toV(env["objdir"]) == OBJDIR, eng.toV(env["version"]) == eng.asked), "object and version as asked for", node)
        st = eng.raise_if(st, z3.Not(SETUP), Exc(exc(eng)))
        if st is None:
            return []
        st = st.copy()
        o = st.heap[me.oid]
        st.heap[me.oid] = type(o)(o.cls, dict(o.fields, obj_fs=obj))
        return [(st, (inv, Sym("V", VER)))]

    def s_copy(eng, st, env, node):
        """Contract of fsw_copyfile (proved for C16)."""
        eng.prove(st, same_fs(env["src_fs"], obj), "copied from the object", node)
        eng.prove(st, same_fs(env["dst_fs"], dst), "copied to the destination", node)
        q, p = eng.toV(env["src_path"]), eng.toV(env["dst_path"])
        eng.prove(st, S0.files[q], "what is copied is a content file", node)
        D = st.heap[dst.ref.oid]
        eng.prove(st, z3.Not(D.files[p]), "nothing is overwritten", node)
        st = st.copy()
        st.heap[dst.ref.oid] = D.write(p, S0.content[q])
        return [(st, None)]

    def s_meta(eng, st, env, node):
        kw = env["kwargs"]
        a = kw.get("inventory")
        ok = z3.BoolVal(a == inv) if not isinstance(a, Sym) else a.t == DOC
        eng.prove(st, z3.And(ok, eng.toV(kw.get("version")) == VER, z3.BoolVal(not env["args"] and set(kw) == {"inventory", "version"})), "the metadata is that of the version", node)
        return [(st, Meta())]

    def s_dg(eng, st, env, node):
        """Contract of digest_for_logical_path (proved for C20)."""
        p = eng.toV(env["path"])
        eng.prove(st, eng.toV(st.heap[env["self"].oid].fields["vdir"]) == VER, "of the version asked for", node)
        a, b = eng.fork(st, LP(T, p))
        return ([(a, Sym("V", dg(T, p)))] if a is not None else []) + ([(b, None)] if b is not None else [])
    eng.summaries["object.Object._extract_setup"] = s_setup
    eng.summaries["fsw.fsw_copyfile"] = s_copy
    eng.summaries["version_metadata.VersionMetadata"] = s_meta
    eng.summaries["inventory.Version.digest_for_logical_path"] = s_dg
    for n in ("debug", "info"):
        eng.ext["logging." + n] = lambda eng, st, a, kw, node: [(st, None)]
    eng.ext["os.path.dirname"] = lambda eng, st, a, kw, node: [(st, Sym("V", fresh("V", "directory")))]
    eng.asked = fresh("V", "version_given")
    st.assume_(z3.And(kind(eng.asked) == KS, kind(DST) == KS, kind(OBJDIR) == KS, kind(BASE) == KS, kind(PARENT) == KS, kind(NAME) == KS, kind(LPATH) == KS, NENT >= 0))
    return me, obj, S0, dst, D0, par, P0, T, M


class Meta:
    """The metadata of the version."""

    def same_val(self, o):
        return isinstance(o, Meta)


@task("C09", "object.Object.extract", clause="exactly the files of the version, with their content, in an empty destination")
def extract(c):
    eng = c.eng
    eng.split_returns = True
    st = State()
    me, obj, S0, dst, D0, par, P0, T, M = place(c, st)
    there, isdir = z3.Or(P0.files[BASE], P0.dirs[BASE]), P0.dirs[BASE]
    # the destination is the directory of that name: without entries, or not yet there, it holds nothing
    st.fact_(z3.Implies(z3.Or(z3.Not(isdir), NENT == 0), z3.ForAll([x], z3.Not(D0.files[x]), patterns=[D0.files[x]])))

    def s_openfs(eng, st, env, node):
        eng.prove(st, z3.And(eng.toV(env["fs_url"]) == PARENT, z3.BoolVal(env.get("create", False) is False)), "the directory above the destination is opened", node)
        st = eng.raise_if(st, z3.Not(PTHERE), FileNotFoundError)
        return [] if st is None else [(st, par)]

    def s_opendir(eng, st, env, node):
        eng.prove(st, z3.And(same_fs(env["fs"], par), eng.toV(env["path"]) == BASE), "the destination is opened", node)
        return [(st, dst)]

    def s_norm(eng, st, a, kw, node):
        eng.prove(st, eng.toV(a[0]) == DST, "the destination given", node)
        return [(st, Opaque("normalized destination"))]
    eng.ext["os.path.normpath"] = s_norm
    eng.ext["os.path.split"] = lambda eng, st, a, kw, node: [(st, (Sym("V", PARENT), Sym("V", BASE)))]
    eng.summaries["fsw.fsw_openfs"] = s_openfs
    eng.summaries["fsw.fsw_opendir_as_fs"] = s_opendir

    def listdir(eng, st, S, p, a, kw, node):
        eng.prove(st, p == BASE, "the entries of the destination", node)
        return [(st, Names())]

    def makedir(eng, st, S, p, a, kw, node):
        eng.prove(st, p == BASE, "the directory made is the destination", node)
        st = eng.raise_if(st, z3.Or(S.files[p], S.dirs[p]), FileExistsError)
        if st is None:
            return []
        st = st.copy()
        st.heap[par.ref.oid] = S.with_(dirs=z3.Store(S.dirs, p, z3.BoolVal(True)), touched=z3.Store(S.touched, p, z3.BoolVal(True)))
        return [(st, None)]
    par.m_listdir = par.m_ls = listdir
    par.m_makedir = par.m_mkdir = par.m_makedirs = makedir
    src = lambda t: S0.content[at(get(M, dg(T, t)), 0)]

    def done(D, n, m=None):
        """The files of the first n digests (and the first m of the next) are there."""
        at_ = kidx(T, dg(T, x))
        now = z3.And(LP(T, x), z3.Or(at_ < n, z3.And(at_ == n, li(T, x) < m)) if m is not None else at_ < n)
        return [("the files so far", z3.ForAll([x], D.files[x] == now, patterns=[D.files[x], LP(T, x)])),
                ("their content", z3.ForAll([x], z3.Implies(now, D.content[x] == src(x)), patterns=[D.content[x]]))]

    def outer(l):
        return done(l.st.heap[dst.ref.oid], l.i)

    def inner(l):
        return done(l.st.heap[dst.ref.oid], l.outer[0], l.i)
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, outer, depth=0), LoopSpec(lambda t: True, inner, depth=1)]
    rets, raises = c.run(st, [Sym("V", OBJDIR), Sym("V", eng.asked), Sym("V", DST)], self_=me)
    ok = z3.And(SETUP, PTHERE, z3.Or(z3.Not(there), z3.And(isdir, NENT == 0)))
    for s, e in raises:
        c.prove(s, z3.Not(ok), "a version that is there is not refused (%s)" % e.name)
        c.prove(s, z3.BoolVal(s.heap[par.ref.oid].same(P0) and s.heap[dst.ref.oid].same(D0) and s.heap[obj.ref.oid].same(S0)), "a refusal changes nothing (%s)" % e.name)
    p = fresh("V", "path")
    for s, v in rets:
        c.cover_any(s, "extracted")
        D = s.heap[dst.ref.oid]
        c.prove(s, ok, "success only for a version that is there and an empty destination")
        c.prove(s.assume(LP(T, p)), D.files[p], "every logical path is there")
        c.prove(s.assume(D.files[p]), LP(T, p), "only logical paths are there")
        c.prove(s.assume(LP(T, p)), D.content[p] == src(p), "with its content")
        c.prove(s, z3.BoolVal(s.heap[obj.ref.oid].same(S0)), "the object is as it was")
        PP = s.heap[par.ref.oid]
        c.prove(s, z3.And(PP.files == P0.files, PP.content == P0.content), "no file beside the destination is changed")
        c.prove(s.assume(p != BASE), PP.dirs[p] == P0.dirs[p], "no other directory is made")
        c.prove(s, z3.BoolVal(isinstance(v, Meta)), "gives the metadata of the version")


@task("C09", "object.Object.extract_file", clause="exactly the file asked for, under its base name, never over another")
def extract_file(c):
    eng = c.eng
    eng.split_paths = eng.split_returns = True
    st = State()
    me, obj, S0, dst, D0, par, P0, T, M = place(c, st)

    def s_openfs(eng, st, env, node):
        eng.prove(st, z3.And(eng.toV(env["fs_url"]) == DST, z3.BoolVal(env.get("create") is True)), "the destination is opened", node)
        st = eng.raise_if(st, z3.Not(PTHERE), FileNotFoundError)
        return [] if st is None else [(st, dst)]

    def s_base(eng, st, a, kw, node):
        eng.prove(st, eng.toV(a[0]) == LPATH, "the base name of the path asked for", node)
        return [(st, Sym("V", NAME))]
    eng.summaries["fsw.fsw_openfs"] = s_openfs
    eng.ext["os.path.basename"] = s_base

    def untouched(l):
        D = l.st.heap[dst.ref.oid]
        return [("nothing written so far", z3.And(D.files == D0.files, D.content == D0.content))]

    def outer(l):
        u = at(get(T, key(T, k)), j)
        return untouched(l) + [("not among the digests so far", z3.Implies(LP(T, LPATH), kidx(T, dg(T, LPATH)) >= l.i))]

    def inner(l):
        return untouched(l) + [("not among the paths so far", z3.Implies(z3.And(LP(T, LPATH), kidx(T, dg(T, LPATH)) == l.outer[0]), li(T, LPATH) >= l.i))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, outer, depth=0), LoopSpec(lambda t: True, inner, depth=1)]
    rets, raises = c.run(st, [Sym("V", OBJDIR), Sym("V", eng.asked), Sym("V", DST), Sym("V", LPATH)], self_=me)
    free = z3.And(z3.Not(D0.files[NAME]), z3.Not(D0.dirs[NAME]))
    ok = z3.And(SETUP, PTHERE, free, LP(T, LPATH))
    p = fresh("V", "path")
    for s, e in raises:
        D = s.heap[dst.ref.oid]
        c.prove(s, z3.Not(ok), "a path that is there is not refused (%s)" % e.name)
        c.prove(s, z3.And(D.files[p] == D0.files[p], D.content[p] == D0.content[p], z3.BoolVal(s.heap[obj.ref.oid].same(S0))), "a refusal changes nothing (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "extracted")
        D = s.heap[dst.ref.oid]
        c.prove(s, ok, "success only for a path that is there and a name that is free")
        c.prove(s, z3.And(D.files[NAME], D.content[NAME] == S0.content[at(get(M, dg(T, LPATH)), 0)]), "the file has its content")
        c.prove(s.assume(p != NAME), z3.And(D.files[p] == D0.files[p], D.content[p] == D0.content[p]), "no other file is changed")
        c.prove(s, z3.BoolVal(s.heap[obj.ref.oid].same(S0)), "the object is as it was")
        c.prove(s, z3.BoolVal(isinstance(v, Meta)), "gives the metadata of the version")


class VersionDirs:
    """The names of the versions of the inventory (contract of version_directories, proved for C20)."""

    def contains(self, eng, st, t, node):
        return [(st, has(get(DOC, VERS), eng.toV(t)))]

    def same_val(self, o):
        return isinstance(o, VersionDirs)


@task("C09", "object.Object._extract_setup", clause="gives the inventory and a version that is there")
def extract_setup(c):
    eng = c.eng
    eng.split_returns = True
    HEAD = get(DOC, lit("head"))
    st = State()
    obj, S0 = storage(eng, st, "object")
    me = c.inst(st, "object", "Object", {"obj_fs": None, "spec_version": None})
    inv = c.inst(st, "inventory", "Inventory", {"data": Sym("V", DOC)})
    eng.frozen = "extraction does not change the inventory"
    st.assume_(z3.And(kind(DOC) == KD, DOC != noneV, kind(get(DOC, VERS)) == KD, has(DOC, VERS), has(DOC, lit("head")), kind(HEAD) == KS, has(get(DOC, VERS), HEAD), kind(VER) == KS, kind(OBJDIR) == KS))

    def s_open(eng, st, env, node):
        eng.prove(st, z3.And(eng.toV(env["objdir"]) == OBJDIR, z3.BoolVal(env.get("create", False) is False)), "the object is opened", node)
        st = eng.raise_if(st, z3.Not(SRCOK), Exc(exc(eng)))
        if st is None:
            return []
        st = st.copy()
        o = st.heap[me.oid]
        st.heap[me.oid] = type(o)(o.cls, dict(o.fields, obj_fs=obj))
        return [(st, None)]

    def s_parse(eng, st, env, node):
        """Contract of parse_inventory (proved above)."""
        eng.prove(st, same_fs(st.heap[me.oid].fields["obj_fs"], obj), "the inventory of the object opened", node)
        st = eng.raise_if(st, z3.Not(INVOK), Exc(exc(eng)))
        return [] if st is None else [(st, inv)]
    eng.summaries["object.Object.open_obj_fs"] = s_open
    eng.summaries["object.Object.parse_inventory"] = s_parse
    eng.summaries["inventory.Inventory.version_directories"] = lambda eng, st, env, node: [(st, VersionDirs())]
    eng.ext["logging.debug"] = lambda eng, st, a, kw, node: [(st, None)]
    rets, raises = c.run(st, [Sym("V", OBJDIR), Sym("V", VER)], self_=me)
    head = VER == lit("head")
    ok = z3.And(SRCOK, INVOK, z3.Or(head, has(get(DOC, VERS), VER)))
    for s, e in raises:
        c.prove(s, z3.And(z3.Not(ok), z3.BoolVal(e.name == "ObjectException")), "a version that is there is not refused")
    for s, v in rets:
        c.cover_any(s, "set up")
        c.prove(s, ok, "only a version that is there")
        good = isinstance(v, tuple) and len(v) == 2 and v[0] == inv
        c.prove(s, eng.toV(v[1]) == z3.If(head, HEAD, VER) if good else z3.BoolVal(False), "the inventory, and the version asked for or the head")
        c.prove(s, same_fs(s.heap[me.oid].fields["obj_fs"], obj), "the object is open")


FIELDS = ("created", "message", "name", "address")


@task("C09", "version_metadata.VersionMetadata.from_inventory", clause="exactly what is recorded for the version")
def metadata(c):
    eng = c.eng
    eng.split_returns = True
    ID, USER = lit("id"), lit("user")
    for wrapped in (False, True):
        for named in (False, True):
            st = State()
            eng.frozen = "reading metadata does not change the inventory"
            st.assume_(z3.And(kind(DOC) == KD, DOC != noneV, kind(VER) == KS, VER != noneV))
            v = VER if named else get(DOC, lit("head"))
            B, U = block(v), get(block(v), USER)
            st.assume_(z3.And(z3.Implies(has(DOC, VERS), z3.And(kind(get(DOC, VERS)) == KD, z3.Implies(has(get(DOC, VERS), v), z3.And(kind(B) == KD, z3.Implies(has(B, USER), kind(U) == KD))))),
                              z3.Implies(has(DOC, lit("head")), kind(get(DOC, lit("head"))) == KS)))
            inv = c.inst(st, "inventory", "Inventory", {"data": Sym("V", DOC)}) if wrapped else Sym("V", DOC)
            me = c.inst(st, "version_metadata", "VersionMetadata", dict({f: None for f in FIELDS}, id=None))
            rets, raises = c.run(st, [inv] + ([Sym("V", VER)] if named else []), self_=me)
            ok = z3.And(has(DOC, VERS), has(get(DOC, VERS), v), z3.BoolVal(True) if named else has(DOC, lit("head")))
            w = "%s, %s" % ("Inventory" if wrapped else "data", "version given" if named else "head")
            for s, e in raises:
                c.prove(s, z3.And(z3.Not(ok), z3.BoolVal(e.name == "InventoryException")), w + ": a version that is there is not refused")
            for s, _ in rets:
                c.cover_any(s, w)
                f = s.heap[me.oid].fields
                c.prove(s, ok, w + ": only a version that is there")
                c.prove(s, eng.toV(f["id"]) == z3.If(has(DOC, ID), get(DOC, ID), noneV), w + ": the id of the object")
                c.prove(s, eng.toV(f["version"]) == v, w + ": the version")
                for n in FIELDS:
                    q = lit(n)
                    t = z3.If(has(B, q), get(B, q), noneV) if n in FIELDS[:2] else z3.If(z3.And(has(B, USER), has(U, q)), get(U, q), noneV)
                    c.prove(s, eng.toV(f[n]) == t, w + ": %s" % n)
