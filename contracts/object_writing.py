"""C07, C08: writing objects and new versions (ocfl/object.py)."""
import z3

from pyvc import values as V_
from pyvc.builtins_model import View, vconcat
from pyvc.engine import LoopSpec, State
from pyvc.fsmodel import storage, Storage
from pyvc.task import task
from pyvc.values import Bound, Sym, Opaque, Union, Exc, Inst, DictObj, V, fresh, kind, lit, noneV, KS, KL, KD, KI, IntS, BoolS, SetS, at, jlen, has, get, Unsupported
from contracts.storage_add import cls, jtext, dump_v

OB = "object.Object."
BOTH = ["C07", "C08"]
x, y = z3.Consts("x y", V)
j, k = z3.Ints("j k")
DOC, OALG, SPECV, IDENT = z3.Const("inventory", V), z3.Const("object_digest_algorithm", V), z3.Const("object_spec_version", V), z3.Const("identifier", V)
HEADK, ALGK = lit("head"), lit("digestAlgorithm")
INV = lit("inventory.json")
dig = z3.Function("digest_of_content", V, V, V)            # bytes, algorithm -> digest (C14)
join = z3.Function("os_join2", V, V, V)
dirn = z3.Function("os_dirname", V, V)
inhead = z3.Function("under_head", V, BoolS)               # the path lies in the directory of the head version
A = lambda st, vs, b, p: st.fact_(z3.ForAll(vs, b, patterns=[p]))
side = lambda a: vconcat([lit("inventory.json."), a])
HEAD = get(DOC, HEADK)
ALG = get(DOC, ALGK)


def in_dir(v, n):
    return n if v is None else join(v, n)


def sidecar_text(content, alg):
    return vconcat([dig(content, alg), lit(" inventory.json\n")])


def shape(st):
    """The inventory: a document with a head and a digest algorithm."""
    st.assume_(z3.And(kind(DOC) == KD, has(DOC, HEADK), kind(HEAD) == KS, has(DOC, ALGK), kind(ALG) == KS, kind(OALG) == KS, kind(SPECV) == KS))


def paths(st, algs):
    """Facts on the few paths involved: what os.path.join and concatenation give is known to differ where the pieces differ."""
    A(st, [x, y], z3.And(kind(join(x, y)) == KS, z3.Implies(x == HEAD, inhead(join(x, y)))), join(x, y))
    st.fact_(z3.And(z3.Not(inhead(INV)), z3.Not(inhead(lit("")))))
    for a in algs:
        st.fact_(z3.And(side(a) != INV, z3.Not(inhead(side(a))), join(HEAD, side(a)) != join(HEAD, INV)))
    for a in algs:
        for b in algs:
            if not a.eq(b):
                st.fact_(z3.Implies(a != b, side(a) != side(b)))


def setup(eng):
    eng.ext["json.dump"] = dump_v
    for n in ("debug", "info"):
        eng.ext["logging." + n] = lambda eng, st, a, kw, node: [(st, None)]
    eng.frozen = "the inventory is not changed while it is written"


def same_fs(v, fs):
    if isinstance(v, Union):
        return z3.Or(*[g for g, a in v.alts if a == fs])
    return z3.BoolVal(v == fs)


def s_digest(fs):
    def f(eng, st, env, node):
        """Contract of file_digest (proved for C14)."""
        eng.prove(st, same_fs(env.get("fs"), fs), "a file of the object", node)
        S, p, a = st.heap[fs.ref.oid], eng.toV(env["filename"]), eng.toV(env["digest_type"])
        st = eng.raise_if(st, z3.Not(S.files[p]), Exc(OSError))
        if st is None:
            return []
        t = dig(S.content[p], a)
        return [(st.assume(kind(t) == KS), Sym("V", t))]
    return f


def only(c, s, S0, S1, mine, what):
    """All other files are as before."""
    q = fresh("V", "other")
    c.prove(s.assume(z3.Not(mine(q))), z3.And(S1.files[q] == S0.files[q], z3.Implies(S0.files[q], S1.content[q] == S0.content[q])), what + "all other files are as before")


@task(BOTH, OB + "write_inventory_and_sidecar", setup=setup, clause="writes the inventory and the sidecar with its digest, nothing else")
def write_inventory(c):
    eng = c.eng
    for given in (True, False):
        for where in (None, "dir"):
            st = State()
            obj, S0 = storage(eng, st, "object")
            shape(st)
            vd = fresh("V", "vdir") if where else None
            alg = ALG if given else OALG
            if where:
                st.assume_(kind(vd) == KS)
                st.fact_(z3.And(join(vd, INV) != join(vd, side(alg)), join(vd, INV) != vd, join(vd, side(alg)) != vd))
            st.fact_(INV != side(alg))
            me = c.inst(st, "object", "Object", {"obj_fs": obj, "digest_algorithm": Sym("V", OALG), "spec_version": Sym("V", SPECV), "id": Sym("V", IDENT)})
            inv = c.inst(st, "inventory", "Inventory", {"data": Sym("V", DOC)})
            eng.summaries["digest.file_digest"] = s_digest(obj)
            kw = {"vdir": Sym("V", vd)} if where else {}
            rets, raises = c.run(st, [inv if given else None], kw, self_=me)
            f, g = in_dir(vd, INV), in_dir(vd, side(alg))
            w = "%s, %s: " % ("inventory" if given else "sidecar only", "in a directory" if where else "in the root")
            for s, e in raises:
                c.prove(s, z3.And(z3.BoolVal(not given), z3.Not(S0.files[f])), w + "no exception unless there is no inventory (%s)" % e.name)
            for s, v in rets:
                c.cover_any(s, w + "written")
                S1 = s.heap[obj.ref.oid]
                text = jtext(DOC) if given else S0.content[f]
                c.prove(s, z3.And(S1.files[f], S1.content[f] == text), w + "the inventory")
                c.prove(s, z3.And(S1.files[g], S1.content[g] == sidecar_text(text, alg)), w + "its sidecar")
                c.prove(s, eng.toV(v) == g, w + "gives the name of the sidecar")
                only(c, s, S0, S1, lambda q: z3.Or(q == f, q == g), w)


@task(BOTH, OB + "copy_into_object", setup=setup, clause="the file gets the content of the source; no other file is touched")
def copy_in(c):
    eng = c.eng
    eng.ext["os.path.dirname"] = lambda eng, st, a, kw, node: [(st.assume(kind(dirn(eng.toV(a[0]))) == KS), Sym("V", dirn(eng.toV(a[0]))))]
    for create in (True, False):
        st = State()
        obj, S0 = storage(eng, st, "object")
        src, T0 = storage(eng, st, "source")
        p, q = fresh("V", "srcfile"), fresh("V", "filepath")
        st.assume_(z3.And(kind(p) == KS, kind(q) == KS, dirn(q) != q))
        me = c.inst(st, "object", "Object", {"obj_fs": obj})

        def s_copy(eng, st, env, node):
            """Contract of fsw_copyfile (proved for C16)."""
            eng.prove(st, z3.And(same_fs(env["src_fs"], src), same_fs(env["dst_fs"], obj)), "from the source to the object", node)
            a, b = eng.toV(env["src_path"]), eng.toV(env["dst_path"])
            st = eng.raise_if(st, z3.Not(T0.files[a]), Exc(OSError))
            if st is None:
                return []
            st = st.copy()
            st.heap[obj.ref.oid] = st.heap[obj.ref.oid].write(b, T0.content[a])
            return [(st, None)]
        eng.summaries["fsw.fsw_copyfile"] = s_copy
        rets, raises = c.run(st, [src, Sym("V", p), Sym("V", q)], {"create_dirs": True} if create else {}, self_=me)
        w = "directories made: " if create else ""
        for s, e in raises:
            c.prove(s, z3.Not(T0.files[p]), w + "no exception unless there is no source file (%s)" % e.name)
            only(c, s, S0, s.heap[obj.ref.oid], lambda z: z3.BoolVal(False), w + "refused: ")
        for s, v in rets:
            c.cover_any(s, w + "copied")
            S1 = s.heap[obj.ref.oid]
            c.prove(s, z3.And(S1.files[q], S1.content[q] == T0.content[p]), w + "the content of the source")
            only(c, s, S0, S1, lambda z: z == q, w)


# ---- callers ----
NF = z3.Const("files_to_copy", IntS)
fkey, fval, fidx = z3.Function("content_path_to_copy", IntS, V), z3.Function("source_of_copy", IntS, V), z3.Function("copy_index", V, IntS)
COPY = z3.Function("is_copied", V, BoolS)


HASC, CREATED = z3.Const("has_created", BoolS), z3.Const("created", V)


class Copies:
    """files_to_copy of a new version: content path -> path in the source."""

    def same_val(self, o):
        return isinstance(o, Copies)

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", NF > 0))

    def len_(self, eng, st, node):
        return [(st, Sym("int", NF))]

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def contains(self, eng, st, v, node):
        return [(st, COPY(eng.toV(v)))]

    def getitem(self, eng, st, a, k, node):
        t = eng.toV(k)
        st = eng.raise_if(st, z3.Not(COPY(t)), KeyError)
        return [(st, Sym("V", fval(fidx(t))))] if st is not None else []

    def view(self, eng, st, node):
        return View(st, NF, lambda k: Sym("V", fkey(k)), pats=lambda k: [fkey(k)])

    def method(self, eng, st, name, a, kw, node):
        if name == "items":
            return [(st, Items())]
        if name == "keys":
            return [(st, self)]
        raise Unsupported("method %s of files_to_copy" % name, node)


class Items:
    def view(self, eng, st, node):
        return View(st, NF, lambda k: (Sym("V", fkey(k)), Sym("V", fval(k))), pats=lambda k: [fkey(k)])


def copies(st, T):
    """What C06 gives for files_to_copy: distinct content paths below the head version, none of them an inventory or sidecar; the sources exist."""
    st.fact_(NF >= 0)
    A(st, [k], z3.Implies(z3.And(0 <= k, k < NF), z3.And(COPY(fkey(k)), fidx(fkey(k)) == k, kind(fkey(k)) == KS, kind(fval(k)) == KS, T.files[fval(k)])), fkey(k))
    A(st, [x], z3.Implies(COPY(x), z3.And(0 <= fidx(x), fidx(x) < NF, fkey(fidx(x)) == x, inhead(x), x != join(HEAD, INV), x != join(HEAD, side(ALG)))), COPY(x))


def s_write_inv(obj):
    def f(eng, st, env, node):
        """Contract of write_inventory_and_sidecar (proved above)."""
        v = env.get("vdir", "")
        d = None if isinstance(v, str) and v == "" else eng.toV(v)
        inv = env.get("inventory")
        if inv is None or not (isinstance(st.heap[inv.oid], Inst)):
            raise Unsupported("sidecar only", node)
        data = st.heap[inv.oid].fields["data"]
        eng.prove(st, eng.toV(data) == DOC, "the inventory of the new version is written", node)
        f, g = in_dir(d, INV), in_dir(d, side(ALG))
        st = st.copy()
        S = st.heap[obj.ref.oid]
        st.heap[obj.ref.oid] = S.write(f, jtext(DOC)).write(g, sidecar_text(jtext(DOC), ALG)).with_(dirs=fresh(SetS, "dirs"))
        st.ghost["written"] = st.ghost.get("written", ()) + (d,)
        return [(st, Sym("V", g))]
    return f


def s_copy_in(obj, src, T):
    def f(eng, st, env, node):
        """Contract of copy_into_object (proved above)."""
        eng.prove(st, same_fs(env["src_fs"], src), "copied from the source", node)
        a, b = eng.toV(env["srcfile"]), eng.toV(env["filepath"])
        eng.prove(st, T.files[a], "what is copied is a file of the source", node)
        c_ = env.get("create_dirs")
        if c_ is not True:
            raise Unsupported("copy without making directories", node)
        st = st.copy()
        st.heap[obj.ref.oid] = st.heap[obj.ref.oid].write(b, T.content[a]).with_(dirs=fresh(SetS, "dirs"))
        return [(st, None)]
    return f


def copying(obj, T):
    """Loop invariant of the copying."""
    def inv(l):
        S, E = l.st.heap[obj.ref.oid], l.entry.heap[obj.ref.oid]
        return [("what was copied", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), z3.And(S.files[fkey(k)], S.content[fkey(k)] == T.content[fval(k)])), patterns=[fkey(k)])),
                ("everything else", z3.ForAll([x], z3.Implies(z3.Not(COPY(x)), z3.And(S.files[x] == E.files[x], S.content[x] == E.content[x])), patterns=[S.files[x], S.content[x]]))]
    return inv


def created(eng):
    """NewVersion.created: read and set before anything is written."""
    def getter(eng, st, env, node):
        return [(st.assume(z3.And(kind(CREATED) == KS, CREATED != noneV)), Union([(HASC, Sym("V", CREATED)), (z3.Not(HASC), None)]))]

    def setter(eng, st, env, node):
        eng.prove(st, z3.And(z3.Not(HASC), z3.BoolVal(not st.ghost.get("written"))), "the time is set only if there is none, and before the inventory is written", node)
        st = st.copy()
        st.ghost["time"] = z3.BoolVal(True)
        return [(st, None)]
    eng.summaries["new_version.NewVersion.created"] = getter
    eng.summaries["new_version.NewVersion.created!set"] = setter
    eng.summaries["w3c_datetime.datetime_to_str"] = lambda eng, st, env, node: [(st.assume(kind(z3.Const("now", V)) == KS), Sym("V", z3.Const("now", V)))]


def whole(c, s, obj, T, w):
    """What holds of an object after writing its head version."""
    S1 = s.heap[obj.ref.oid]
    p = fresh("V", "p")
    c.prove(s.assume(COPY(p)), z3.And(S1.files[p], S1.content[p] == T.content[fval(fidx(p))]), w + "every new content path has the content of its source")
    for d, t in ((None, "root"), (HEAD, "head version")):
        f, g = in_dir(d, INV), in_dir(d, side(ALG))
        c.prove(s, z3.And(S1.files[f], S1.content[f] == jtext(DOC)), w + "the inventory in the %s" % t)
        c.prove(s, z3.And(S1.files[g], S1.content[g] == sidecar_text(jtext(DOC), ALG)), w + "its sidecar in the %s" % t)
    c.prove(s, z3.Or(HASC, s.ghost["time"]), w + "the version has a time of creation")
    return S1


@task(BOTH, OB + "write_new_version", setup=setup, clause="earlier versions untouched; the new one complete; nothing else")
def write_version(c):
    eng = c.eng
    created(eng)
    OLD = z3.Const("old_digest_algorithm", V)
    st = State()
    st.ghost["time"] = z3.BoolVal(False)
    obj, S0 = storage(eng, st, "object")
    src, T = storage(eng, st, "source")
    shape(st)
    paths(st, [ALG, OLD])
    copies(st, T)
    st.assume_(z3.Or(OLD == noneV, kind(OLD) == KS))
    # the object is valid: nothing lies below the directory of a version it does not have; the sidecar of the old root inventory is there
    st.fact_(z3.ForAll([x], z3.Implies(inhead(x), z3.Not(S0.files[x])), patterns=[S0.files[x]]))
    st.assume_(z3.And(z3.Not(S0.files[HEAD]), z3.Not(S0.dirs[HEAD]), S0.files[INV], z3.Implies(OLD != noneV, S0.files[side(OLD)])))
    st.assume_(z3.Implies(z3.And(OLD != noneV, OLD != ALG), z3.Not(S0.files[side(ALG)])))

    def m_rm(eng, st, S, p, a, kw, node):
        st = eng.raise_if(st, z3.Not(S.files[p]), FileNotFoundError)
        if st is None:
            return []
        st = st.copy()
        st.heap[obj.ref.oid] = S.with_(files=z3.Store(S.files, p, z3.BoolVal(False)), touched=z3.Store(S.touched, p, z3.BoolVal(True)))
        return [(st, None)]
    obj.m_rm = obj.m_rm_file = m_rm
    eng.summaries[OB + "write_inventory_and_sidecar"] = s_write_inv(obj)
    eng.summaries[OB + "copy_into_object"] = s_copy_in(obj, src, T)
    me = c.inst(st, "object", "Object", {"obj_fs": obj, "digest_algorithm": Sym("V", OALG), "spec_version": Sym("V", SPECV), "id": Sym("V", IDENT)})
    inv = c.inst(st, "inventory", "Inventory", {"data": Sym("V", DOC)})
    nv = c.inst(st, "new_version", "NewVersion", {"inventory": inv, "src_fs": src, "files_to_copy": Copies(), "old_digest_algorithm": Sym("V", OLD)})
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, copying(obj, T))]
    rets, raises = c.run(st, [nv], self_=me)
    for s, e in raises:
        eng.unreachable(s, "no exception (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "written")
        S1 = whole(c, s, obj, T, "")
        changed = z3.And(OLD != noneV, OLD != ALG)
        q = fresh("V", "q")
        mine = z3.Or(inhead(q), q == INV, q == side(ALG), z3.And(changed, q == side(OLD)))
        c.prove(s.assume(z3.Not(mine)), z3.And(S1.files[q] == S0.files[q], z3.Implies(S0.files[q], S1.content[q] == S0.content[q])), "no other file changes, none of an earlier version in particular")
        c.prove(s.assume(z3.And(inhead(q), S1.files[q])), z3.Or(COPY(q), q == join(HEAD, INV), q == join(HEAD, side(ALG))), "no other file in the new version")
        c.prove(s.assume(changed), z3.Not(S1.files[side(OLD)]), "the sidecar of the old algorithm is gone")
        c.prove(s, z3.BoolVal(v == inv), "gives the inventory")


# ---- whole objects: build, create, update ----
NVERS = z3.Const("number_of_versions", IntS)
PRE, FULL = z3.Function("inventory_before_content", IntS, V), z3.Function("inventory_of_version", IntS, V)
vd, md = z3.Function("version_directory", IntS, V), z3.Function("version_metadata", IntS, V)
IDX = z3.Function("version_of_path", V, IntS)          # the version under whose directory a path of the object lies, else negative
nf = z3.Function("number_of_files_to_copy", IntS, IntS)
ck, cs = z3.Function("content_path_of_version", IntS, IntS, V), z3.Function("source_of_content_path", IntS, IntS, V)
TF, TC = z3.Function("source_has_file", IntS, V, BoolS), z3.Function("source_content", IntS, V, V)
SRCD, OBJD = z3.Const("srcdir", V), z3.Const("objdir", V)
FIELDS = ["id", "spec_version", "digest_algorithm", "content_directory", "fixity", "dedupe", "content_path_normalization", "forward_delta"]
field = lambda n: z3.Const("object_" + n, V)
head = lambda k: get(FULL(k), HEADK)


class Src:
    """The source filesystem of a version."""

    def __init__(self, k):
        self.k = k

    def same_val(self, o):
        return isinstance(o, Src) and o.k.eq(self.k)


class CopiesOf:
    """files_to_copy of version k of an object."""

    def __init__(self, k):
        self.k = k

    def same_val(self, o):
        return isinstance(o, CopiesOf) and o.k.eq(self.k)

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", nf(self.k) > 0))

    def len_(self, eng, st, node):
        return [(st, Sym("int", nf(self.k)))]

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def is_key(self, t):
        return z3.And(COPY(t), IDX(t) == self.k)

    def contains(self, eng, st, v, node):
        return [(st, self.is_key(eng.toV(v)))]

    def getitem(self, eng, st, a, k, node):
        t = eng.toV(k)
        st = eng.raise_if(st, z3.Not(self.is_key(t)), KeyError)
        return [(st, Sym("V", cs(self.k, fidx(t))))] if st is not None else []

    def view(self, eng, st, node):
        return View(st, nf(self.k), lambda j: Sym("V", ck(self.k, j)), pats=lambda j: [ck(self.k, j)])

    def method(self, eng, st, name, a, kw, node):
        if name == "items":
            return [(st, ItemsOf(self.k))]
        if name == "keys":
            return [(st, self)]
        raise Unsupported("method %s of files_to_copy" % name, node)


class ItemsOf:
    def __init__(self, k):
        self.k = k

    def view(self, eng, st, node):
        return View(st, nf(self.k), lambda j: (Sym("V", ck(self.k, j)), Sym("V", cs(self.k, j))), pats=lambda j: [ck(self.k, j)])


def round_(st):
    x = st.ghost.get("loopidx", ())
    return x[0] if x else None


def facts_of_versions(st):
    """C06 for every version: distinct content paths below the version's directory, none an inventory or sidecar; sources exist.
    C10/C20: the versions' directories are different."""
    side_ = lambda k: side(get(FULL(k), ALGK))
    A(st, [k], z3.And(kind(FULL(k)) == KD, has(FULL(k), HEADK), has(FULL(k), ALGK), kind(head(k)) == KS, get(FULL(k), ALGK) == field("digest_algorithm"), nf(k) >= 0), FULL(k))
    A(st, [k], z3.And(kind(vd(k)) == KS), vd(k))
    A(st, [k, j], z3.Implies(z3.And(0 <= j, j < nf(k)), z3.And(COPY(ck(k, j)), IDX(ck(k, j)) == k, fidx(ck(k, j)) == j, kind(ck(k, j)) == KS, kind(cs(k, j)) == KS, TF(k, cs(k, j)))), ck(k, j))
    st.fact_(z3.ForAll([x], z3.Implies(z3.And(COPY(x)), z3.And(0 <= IDX(x), 0 <= fidx(x), fidx(x) < nf(IDX(x)), ck(IDX(x), fidx(x)) == x)), patterns=[COPY(x)]))
    st.fact_(z3.ForAll([k], z3.And(IDX(join(head(k), INV)) == k, IDX(join(head(k), SIDE)) == k, z3.Not(COPY(join(head(k), INV))), z3.Not(COPY(join(head(k), SIDE))),
                                   join(head(k), INV) != join(head(k), SIDE)), patterns=[head(k)]))
    st.fact_(z3.And(IDX(INV) < 0, IDX(SIDE) < 0, IDX(DECL) < 0, INV != SIDE, INV != DECL, SIDE != DECL, kind(field("digest_algorithm")) == KS))


SIDE = side(field("digest_algorithm"))
DECL = z3.Const("declaration_name", V)
DECLTEXT = z3.Const("declaration_text", V)


def object_self(c, st):
    """An object with settings of any value; what is asked of a version is compared with them."""
    fields = {n: Sym("V", field(n)) for n in FIELDS}
    fields.update({"obj_fs": None, "lax_digests": Sym("V", field("lax_digests"))})
    return c.inst(st, "object", "Object", fields)


def asked(eng, st, env, want, node):
    for n, t in want.items():
        eng.prove(st, eng.toV(env[n]) == t if n in env else z3.BoolVal(False), "%s as asked for" % n, node)


def versions_setup(c, st, obj):
    """Contracts of what build and create call: starting versions (C06, below), adding content, writing files (above)."""
    eng = c.eng
    doc = c.inst(st, "inventory", "Inventory", {"data": Sym("V", z3.Const("no_data", V))})

    started = {}

    def current(eng, st):
        return round_(st) if round_(st) is not None else z3.IntVal(0)

    def s_first(eng, st, env, node):
        k = current(eng, st)
        eng.prove(st, k == 0, "started once", node)
        asked(eng, st, env, {"identifier": field("id"), "srcdir": join(SRCD, vd(k)) if round_(st) is not None else SRCD, "metadata": md(k),
                             **{n: field(n) for n in ("spec_version", "digest_algorithm", "content_directory", "fixity", "dedupe", "content_path_normalization")}}, node)
        return start(eng, st, k)

    def s_next(eng, st, env, node):
        k = current(eng, st)
        inv = env["inventory"]
        eng.prove(st, same_fs(inv, doc), "on the inventory of the version before", node)
        eng.prove(st, z3.And(k > 0, eng.toV(st.heap[doc.oid].fields["data"]) == FULL(k - 1)), "follows the version before with its content", node)
        asked(eng, st, env, {"srcdir": join(SRCD, vd(k)), "metadata": md(k), "carry_content_forward": eng.toV(False),
                             **{n: field(n) for n in ("spec_version", "dedupe", "forward_delta", "content_path_normalization")}}, node)
        return start(eng, st, k)

    def start(eng, st, k):
        st = st.copy()
        st.heap[doc.oid] = Inst(st.heap[doc.oid].cls, {"data": Sym("V", PRE(k))})
        if k.get_id() not in started:
            fields = {"inventory": doc, "src_fs": Src(k), "files_to_copy": CopiesOf(k)}
            started[k.get_id()] = (c.inst(st, "new_version", "NewVersion", fields), k, fields)
        nv, _, fields = started[k.get_id()]
        st.heap[nv.oid] = Inst(cls(eng, "new_version", "NewVersion"), fields)
        return [(st, nv)]

    def s_add(eng, st, env, node):
        """Contract of add_from_srcdir: every file of the source is added."""
        k = st.heap[env["self"].oid].fields["src_fs"].k
        eng.prove(st, eng.toV(st.heap[doc.oid].fields["data"]) == PRE(k), "content is added once, to the version just started", node)
        st = st.copy()
        st.heap[doc.oid] = Inst(st.heap[doc.oid].cls, {"data": Sym("V", FULL(k))})
        return [(st, None)]

    def s_open(eng, st, env, node):
        eng.prove(st, eng.toV(env["objdir"]) == OBJD, "the directory asked for", node)
        eng.prove(st, z3.BoolVal(env.get("create") is True), "the directory is created", node)
        st = st.copy()
        me = st.heap[env["self"].oid]
        st.heap[env["self"].oid] = Inst(me.cls, {**me.fields, "obj_fs": obj})
        return [(st, None)]

    def opened(eng, st, env, node):
        eng.prove(st, same_fs(st.heap[env["self"].oid].fields["obj_fs"], obj) if st.heap[env["self"].oid].fields["obj_fs"] is not None else z3.BoolVal(False), "written only where asked", node)

    def s_inv(eng, st, env, node):
        """Contract of write_inventory_and_sidecar (proved above)."""
        opened(eng, st, env, node)
        v = env.get("vdir", "")
        d = None if isinstance(v, str) and v == "" else eng.toV(v)
        out = []
        for s, inv in eng.split(st, env.get("inventory")):
            S = s.heap[obj.ref.oid]
            if inv is None:
                eng.prove(s, z3.Not(S.files[in_dir(d, INV)]), "no sidecar without an inventory", node)
                eng.raise_(s, Exc(OSError))
                continue
            t = eng.toV(s.heap[inv.oid].fields["data"])
            k = round_(s)
            eng.prove(s, z3.And(t == FULL(k if k is not None else NVERS - 1), (lit("") if d is None else d) == (lit("") if d is None else get(t, HEADK))), "an inventory with the content, in the directory of its version or the root", node)
            if d is None:
                eng.prove(s, z3.BoolVal(k is None), "the root inventory is written at the end", node)
            s = s.copy()
            s.heap[obj.ref.oid] = S.write(in_dir(d, INV), jtext(t)).write(in_dir(d, SIDE), sidecar_text(jtext(t), field("digest_algorithm"))).with_(dirs=fresh(SetS, "dirs"))
            out.append((s, Sym("V", in_dir(d, SIDE))))
        return out

    def s_copy(eng, st, env, node):
        """Contract of copy_into_object (proved above)."""
        opened(eng, st, env, node)
        f = env["src_fs"]
        if not isinstance(f, Src) or env.get("create_dirs") is not True:
            raise Unsupported("copy from somewhere else", node)
        a, b = eng.toV(env["srcfile"]), eng.toV(env["filepath"])
        eng.prove(st, TF(f.k, a), "what is copied is a file of the source", node)
        st = st.copy()
        st.heap[obj.ref.oid] = st.heap[obj.ref.oid].write(b, TC(f.k, a)).with_(dirs=fresh(SetS, "dirs"))
        return [(st, None)]

    def s_decl(eng, st, env, node):
        """Contract of write_object_declaration (below)."""
        opened(eng, st, env, node)
        st = st.copy()
        st.heap[obj.ref.oid] = st.heap[obj.ref.oid].write(DECL, DECLTEXT)
        return [(st, None)]
    N = "new_version.NewVersion."
    eng.summaries.update({N + "first_version": s_first, N + "next_version": s_next, N + "add_from_srcdir": s_add, OB + "open_obj_fs": s_open,
                          OB + "write_inventory_and_sidecar": s_inv, OB + "copy_into_object": s_copy, OB + "write_object_declaration": s_decl,
                          "fsw.fsw_openfs": lambda eng, st, env, node: [(st, Opaque("source filesystem"))]})
    eng.ext["os.path.join"] = lambda eng, st, a, kw, node: [(st.assume(kind(join(eng.toV(a[0]), eng.toV(a[1]))) == KS), Sym("V", join(eng.toV(a[0]), eng.toV(a[1]))))]
    return doc


def inner(obj):
    """Invariant of copying the files of a version."""
    def inv(l):
        S, E, kk = l.st.heap[obj.ref.oid], l.entry.heap[obj.ref.oid], l.outer[0] if l.outer else z3.IntVal(0)
        done = z3.And(COPY(x), IDX(x) == kk, fidx(x) < l.i)
        return [("what was copied", z3.ForAll([x], z3.Implies(done, z3.And(S.files[x], S.content[x] == TC(kk, cs(kk, fidx(x))))), patterns=[S.files[x], S.content[x]])),
                ("everything else", z3.ForAll([x], z3.Implies(z3.Not(z3.And(COPY(x), IDX(x) == kk)), z3.And(S.files[x] == E.files[x], S.content[x] == E.content[x])), patterns=[S.files[x], S.content[x]]))]
    return inv


def holds_versions(S, n):
    """All versions before n are there: files and inventories."""
    inv_t = jtext(FULL(k))
    return [("files of the versions", z3.ForAll([x], z3.Implies(z3.And(COPY(x), IDX(x) < n), z3.And(S.files[x], S.content[x] == TC(IDX(x), cs(IDX(x), fidx(x))))), patterns=[S.files[x], S.content[x]])),
            ("inventories of the versions", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(S.files[join(head(k), INV)], S.content[join(head(k), INV)] == inv_t,
                                                                                                 S.files[join(head(k), SIDE)], S.content[join(head(k), SIDE)] == sidecar_text(inv_t, field("digest_algorithm")))), patterns=[FULL(k)]))]


mine = lambda q: z3.Or(COPY(q), q == join(head(IDX(q)), INV), q == join(head(IDX(q)), SIDE))


def outer_inv(obj, doc, written):
    def inv(l):
        S, E = l.st.heap[obj.ref.oid], l.entry.heap[obj.ref.oid]
        out = [("inventory of the versions so far", z3.Implies(l.i > 0, l.eng.toV(l.st.heap[doc.oid].fields["data"]) == FULL(l.i - 1)))]
        for n in sorted(l.mods):
            v = l.st.env.get(n)
            alts = v.alts if isinstance(v, Union) else [(z3.BoolVal(True), v)]
            if all(a is None or a == doc for _, a in alts):
                out.append(("there is an inventory once there is a version", z3.And(*[z3.Implies(g, l.i == 0 if a is None else l.i > 0) for g, a in alts])))
        if written:
            out += holds_versions(S, l.i)
            out.append(("no other file in a version", z3.ForAll([x], z3.Implies(z3.And(S.files[x], IDX(x) >= 0), z3.And(IDX(x) < l.i, mine(x))), patterns=[S.files[x]])))
            out.append(("nothing else", z3.ForAll([x], z3.Implies(z3.Or(IDX(x) < 0, IDX(x) >= l.i), z3.And(S.files[x] == E.files[x], S.content[x] == E.content[x])), patterns=[S.files[x], S.content[x]])))
        else:
            out.append(("nothing is written", z3.And(S.files == E.files, S.content == E.content)))
        return out
    return inv


def root_written(c, s, obj, doc, w):
    S = s.heap[obj.ref.oid]
    t = FULL(NVERS - 1)
    for lab, f in holds_versions(S, NVERS):
        c.prove(s, f, w + lab)
    c.prove(s, z3.And(S.files[INV], S.content[INV] == jtext(t), S.files[SIDE], S.content[SIDE] == sidecar_text(jtext(t), field("digest_algorithm"))), w + "the last inventory and its sidecar in the root")
    c.prove(s, z3.And(S.files[DECL], S.content[DECL] == DECLTEXT), w + "the declaration")
    return S


@task("C07", OB + "build", setup=setup, clause="every version as asked for, with its content; the object complete")
def build(c):
    eng = c.eng
    for write in (True, False):
        eng.mod_cache.clear()
        st = State()
        obj, S0 = storage(eng, st, "object")
        facts_of_versions(st)
        st.fact_(NVERS >= 0)
        st.assume_(z3.And(kind(SRCD) == KS, kind(OBJD) == KS))
        st.fact_(z3.ForAll([x], z3.Not(S0.files[x]), patterns=[S0.files[x]]))        # the directory is a new one
        me = object_self(c, st)
        doc = versions_setup(c, st, obj)

        def s_versions(eng, st, env, node):
            """Contract of version_dirs_and_metadata (below)."""
            st = eng.raise_if(st, BADSEQ, Exc(cls(eng, "object_utils", "ObjectException")))
            eng.prove(st, eng.toV(env["versions_metadata"]) == z3.Const("versions_metadata", V), "the metadata given", node)
            return [(st, Pairs())]
        eng.summaries[OB + "version_dirs_and_metadata"] = s_versions
        eng.loops[c.t.func] = [LoopSpec(lambda t: True, outer_inv(obj, doc, write), depth=0), LoopSpec(lambda t: True, inner(obj), depth=1)]
        rets, raises = c.run(st, [Sym("V", SRCD), Sym("V", z3.Const("versions_metadata", V))] + ([Sym("V", OBJD)] if write else []), self_=me)
        w = "written: " if write else "not written: "
        for s, e in raises:
            c.prove(s, z3.Or(field("id") == noneV, BADSEQ, z3.And(z3.BoolVal(write), NVERS == 0)), w + "refused only without identifier, versions or a sequence of them (%s)" % e.name)
        for s, v in rets:
            c.cover_any(s, w + "built")
            S = s.heap[obj.ref.oid]
            if write:
                S = root_written(c, s, obj, doc, w)
                q = fresh("V", "q")
                c.prove(s.assume(z3.And(S.files[q], z3.Not(S0.files[q]))), z3.Or(mine(q), q == DECL, q == INV, q == SIDE), w + "nothing else is written")
            else:
                c.prove(s, z3.And(S.files == S0.files, S.content == S0.content), w + "no file is written")
            for g, a in (v.alts if isinstance(v, Union) else [(z3.BoolVal(True), v)]):
                c.prove(s.assume(g), z3.BoolVal(a == doc) if a is not None else NVERS == 0, w + "gives the inventory of the last version")
            c.prove(s.assume(NVERS > 0), eng.toV(s.heap[doc.oid].fields["data"]) == FULL(NVERS - 1), w + "with all content")


BADSEQ = z3.Const("bad_sequence", BoolS)


class Pairs:
    def view(self, eng, st, node):
        return View(st, NVERS, lambda k: (Sym("V", vd(k)), Sym("V", md(k))), pats=lambda k: [vd(k)])


@task("C07", OB + "create", setup=setup, clause="one version as asked for, with its content; the object complete")
def create(c):
    eng = c.eng
    created(eng)
    for write in (True, False):
        eng.mod_cache.clear()
        st = State()
        st.ghost["time"] = z3.BoolVal(False)
        obj, S0 = storage(eng, st, "object")
        facts_of_versions(st)
        st.fact_(z3.And(NVERS == 1, head(0) == lit("v1")))        # C06, first_version below
        st.assume_(z3.And(kind(SRCD) == KS, kind(OBJD) == KS))
        st.fact_(z3.ForAll([x], z3.Not(S0.files[x]), patterns=[S0.files[x]]))        # the directory is a new one
        me = object_self(c, st)
        doc = versions_setup(c, st, obj)
        eng.loops[c.t.func] = [LoopSpec(lambda t: True, inner(obj))]
        rets, raises = c.run(st, [Sym("V", SRCD)], {"metadata": Sym("V", md(0)), **({"objdir": Sym("V", OBJD)} if write else {})}, self_=me)
        w = "written: " if write else "not written: "
        for s, e in raises:
            c.prove(s, field("id") == noneV, w + "refused only without identifier (%s)" % e.name)
        for s, v in rets:
            c.cover_any(s, w + "created")
            S = s.heap[obj.ref.oid]
            c.prove(s, z3.Or(HASC, s.ghost["time"]), w + "the version has a time of creation")
            c.prove(s, z3.And(z3.BoolVal(v == doc), eng.toV(s.heap[doc.oid].fields["data"]) == FULL(0)), w + "gives the inventory with all content")
            if write:
                S = root_written(c, s, obj, doc, w)
                q = fresh("V", "q")
                c.prove(s.assume(S.files[q]), z3.Or(mine(q), q == DECL, q == INV, q == SIDE), w + "nothing else is written")
            else:
                c.prove(s, z3.And(S.files == S0.files, S.content == S0.content), w + "no file is written")


@task(BOTH, OB + "write_object_declaration", setup=setup, clause="the declaration of the object's specification version")
def declaration(c):
    """Namaste.write is proved for C18; here: which declaration it is, and where it goes."""
    eng = c.eng
    st = State()
    obj, S0 = storage(eng, st, "object")
    spec = z3.Const("object_spec_version", V)
    st.assume_(kind(spec) == KS)
    me = c.inst(st, "object", "Object", {"obj_fs": obj, "spec_version": Sym("V", spec), "id": Sym("V", field("id"))})
    seen = []

    def s_write(eng, st, env, node):
        nm = st.heap[env["self"].oid].fields
        eng.prove(st, eng.toV(nm["d"]) == eng.toV(0), "a declaration of type", node)
        eng.prove(st, eng.toV(nm["content"]) == vconcat([lit("ocfl_object_"), spec]), "of an object, in the specification version of the object", node)
        eng.prove(st, same_fs(env.get("fsw"), obj), "in the object", node)
        d = env.get("dir", "")
        eng.prove(st, eng.toV(d) == lit(""), "in its root", node)
        seen.append(1)
        st = st.copy()
        st.ghost["declared"] = z3.BoolVal(True)
        return [(st, None)]
    eng.summaries["namaste.Namaste.write"] = s_write
    st.ghost["declared"] = z3.BoolVal(False)
    rets, raises = c.run(st, [], self_=me)
    for s, e in raises:
        eng.unreachable(s, "no exception (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "written")
        c.prove(s, s.ghost["declared"], "the declaration is written")
        S1 = s.heap[obj.ref.oid]
        c.prove(s, z3.And(S1.files == S0.files, S1.content == S0.content), "and nothing else")


@task(BOTH, OB + "add_version_with_content", setup=setup, clause="refused or without difference: nothing written; else the version started as asked, with its content, is written")
def add_version(c):
    eng = c.eng
    START, DIFF, WRITTEN = Sym("V", z3.Const("started_version", V)), z3.Const("number_of_differences", IntS), Sym("V", z3.Const("written_inventory", V))
    N = "new_version.NewVersion."
    for given in (True, False):
        for abort in (True, False):
            st = State()
            obj, S0 = storage(eng, st, "object")
            st.assume_(z3.And(kind(SRCD) == KS, kind(OBJD) == KS, DIFF >= 0))
            me = c.inst(st, "object", "Object", {**{n: Sym("V", field(n)) for n in FIELDS}, "obj_fs": obj})
            me_id, flags = me.oid, ("~added", "~written")
            for g in flags:
                st.ghost[g] = z3.IntVal(0)
            nv = c.inst(st, "new_version", "NewVersion", {})

            def bump(s, g):
                s = s.copy()
                s.ghost[g] = s.ghost[g] + 1
                return s

            def s_start(eng, st, env, node):
                """Contract of start_new_version (below)."""
                asked(eng, st, env, {"objdir": OBJD, "srcdir": SRCD if given else lit(""), "metadata": z3.Const("metadata", V), "digest_algorithm": field("digest_algorithm"),
                                     "fixity": field("fixity"), "carry_content_forward": eng.toV(not given)}, node)
                st = eng.raise_if(st, z3.Const("refused", BoolS), Exc(cls(eng, "object_utils", "ObjectException")))
                return [(st, nv)] if st is not None else []

            def s_add(eng, st, env, node):
                eng.prove(st, z3.And(z3.BoolVal(env["self"] == nv), st.ghost["~added"] == 0, st.ghost["~written"] == 0), "content is added once, before writing", node)
                return [(bump(st, "~added"), None)]

            def s_diff(eng, st, env, node):
                eng.prove(st, st.ghost["~added"] == (1 if given else 0), "compared with its content", node)
                return [(st, Diff(DIFF))]

            def s_write(eng, st, env, node):
                """Contract of write_new_version (proved above)."""
                eng.prove(st, z3.And(z3.BoolVal(env["new_version"] == nv), st.ghost["~added"] == (1 if given else 0), st.ghost["~written"] == 0), "the new version with its content is written, once", node)
                return [(bump(st, "~written"), WRITTEN)]
            eng.summaries.update({OB + "start_new_version": s_start, N + "add_from_srcdir": s_add, N + "diff_with_previous": s_diff, OB + "write_new_version": s_write})
            kw = {"metadata": Sym("V", z3.Const("metadata", V))}
            if given:
                kw["srcdir"] = Sym("V", SRCD)
            if abort:
                kw["abort_if_no_difference"] = True
            rets, raises = c.run(st, [Sym("V", OBJD)], kw, self_=me)
            w = "%s%s: " % ("with content" if given else "without content", ", unless nothing changes" if abort else "")
            for s, e in raises:
                c.prove(s, z3.And(z3.Const("refused", BoolS), s.ghost["~written"] == 0), w + "refused, nothing written (%s)" % e.name)
            for s, v in rets:
                c.cover_any(s, w + "done")
                none = z3.And(z3.BoolVal(abort), DIFF == 0)
                c.prove(s, s.ghost["~written"] == z3.If(none, 0, 1), w + "written unless there is no difference")
                c.prove(s, s.heap[obj.ref.oid].files == S0.files, w + "nothing is written otherwise")
                c.prove(s, eng.toV(v) == z3.If(none, noneV, WRITTEN.t), w + "gives the inventory written")


class Diff:
    """What diff_with_previous gives; only its size matters here."""

    def __init__(self, n):
        self.n = n

    def same_val(self, o):
        return isinstance(o, Diff)

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", self.n > 0))

    def len_(self, eng, st, node):
        return [(st, Sym("int", self.n))]


# ---- the versions of a source ----
NENT = z3.Const("number_of_entries", IntS)
ename, eisdir = z3.Function("entry_name", IntS, V), z3.Function("entry_type", IntS, V)
isvd, vnum, inlist = z3.Function("is_version_directory_name", V, BoolS), z3.Function("version_number", V, IntS), z3.Function("is_directory_of_the_source", V, BoolS)
iv, boxi = V_.iv, V_.boxi


class SrcEntry:
    def __init__(self, i):
        self.i = i

    def same_val(self, o):
        return isinstance(o, SrcEntry) and o.i.eq(self.i)

    def getitem(self, eng, st, a, k, node):
        if k in ("name", "type"):
            return [(st, Sym("V", ename(self.i) if k == "name" else eisdir(self.i)))]
        raise Unsupported("entry item %r" % (k,), node)


class SrcList:
    def view(self, eng, st, node):
        return View(st, NENT, lambda i: SrcEntry(i), pats=lambda i: [ename(i)])


class SrcRoot:
    """The source of a build: its top level is listed."""

    def same_val(self, o):
        return isinstance(o, SrcRoot)

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return [(st, True)]

    def method(self, eng, st, name, a, kw, node):
        if name in ("listdir", "ls"):
            eng.prove(st, z3.BoolVal(not a or a[0] in ("/", "")), "the top level is listed", node)
            return [(st, SrcList())]
        raise Unsupported("filesystem method " + name, node)


@task(BOTH, OB + "version_dirs_and_metadata", setup=setup, clause="gives the version directories 1, 2, ... in order, each with its metadata; a gap is refused")
def version_dirs(c):
    eng = c.eng
    for given in (True, False):
        eng.mod_cache.clear()
        st = State()
        META, EMPTY_ = z3.Const("versions_metadata", V), z3.Const("empty_metadata", V)
        st.fact_(NENT >= 0)
        A(st, [k], z3.And(kind(ename(k)) == KS, kind(eisdir(k)) == KS, z3.Implies(z3.And(0 <= k, k < NENT, eisdir(k) == lit("directory")), inlist(ename(k)))), ename(k))
        A(st, [x], z3.Implies(isvd(x), vnum(x) >= 1), isvd(x))
        le = z3.Function("str_le", V, V, BoolS)
        st.fact_(z3.ForAll([x, y], z3.Implies(z3.And(kind(x) == KI, kind(y) == KI, le(x, y)), iv(x) <= iv(y)), patterns=[le(x, y)]))     # integers are sorted as such
        st.assume_(kind(META) == KD)
        me = c.inst(st, "object", "Object", {})
        st.ghost["~given"] = z3.IntVal(0)

        def s_parse(eng, st, env, node):
            """Contract of parse_version_directory (proved for C10)."""
            t = eng.toV(env["dirname"])
            st = eng.raise_if(st, z3.Not(isvd(t)), Exc(cls(eng, "object_utils", "ObjectException")))
            return [(st.assume(vnum(t) >= 1), Sym("int", vnum(t)))] if st is not None else []
        eng.summaries["object_utils.parse_version_directory"] = s_parse
        eng.summaries["version_metadata.VersionMetadata"] = lambda eng, st, env, node: [(st, Sym("V", EMPTY_))]

        def consumer(e, s, v, node):
            if not (isinstance(v, tuple) and len(v) == 2):
                raise Unsupported("pairs are yielded", node)
            t, m = e.toV(v[0]), e.toV(v[1])
            n = s.ghost["~given"] + 1
            e.prove(s, z3.And(inlist(t), isvd(t), vnum(t) == n), "the directory of the next version", node)
            want = z3.If(has(META, boxi(n)), get(META, boxi(n)), EMPTY_) if given else EMPTY_
            e.prove(s, m == want, "with its metadata", node)
            s = s.copy()
            s.ghost["~given"] = n
            return [s]
        eng.on_yield = consumer

        def inv(l):
            maps = [l.st.heap[o] for o in l.modobjs if isinstance(l.st.heap.get(o), V_.MapObj)]
            if maps:                                            # collecting
                m = maps[0]
                return [("what was collected", z3.ForAll([x], z3.Implies(m.dom[x], z3.And(kind(x) == KI, iv(x) >= 1, boxi(iv(x)) == x, inlist(m.val[x]), isvd(m.val[x]), vnum(m.val[x]) == iv(x))), patterns=[m.dom[x]])),
                        ("all were collected", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i, eisdir(k) == lit("directory"), isvd(ename(k))), m.dom[boxi(vnum(ename(k)))]), patterns=[ename(k)]))]
            q = l.view_seq
            out = [("in sequence", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), q(k) == boxi(k + 1)), patterns=[q(k)]))]
            nums = [l.st.env[n] for n in sorted(l.mods) if n in l.entry.env and isinstance(l.st.env.get(n), Sym) and l.st.env[n].sort == "int" or isinstance(l.st.env.get(n), int) and n in l.mods]
            nums = [v for v in nums if not isinstance(v, bool)]
            for v in nums:
                out.append(("count", eng.toint(v) == l.i + 1))
            g = l.st.ghost["~given"]
            if not z3.is_int_value(g):
                out.append(("given so far", g == l.i))
            return out

        def lemmas(l):
            """Increasing numbers without a gap before i, from a set holding 1..n: the next one is i+1."""
            st = l.st
            if z3.is_int_value(st.ghost["~given"]) or eng.recording:
                return
            q, i = l.view_seq, l.i
            lists = [o for o in st.heap.values() if isinstance(o, V_.AccList) and o.seq is not None]
            for f, what in ((z3.Or(*[z3.And(o.arr[boxi(i + 1)], o.seq[i] == boxi(i + 1)) for o in lists]), "the number is there"),
                            (z3.And(kind(q(i)) == KI, iv(q(i)) >= 1, boxi(iv(q(i))) == q(i)), "it is a number"),
                            (z3.Implies(iv(q(i)) <= i, q(iv(q(i)) - 1) == q(i)), "an earlier number would be in its place"),
                            (iv(q(i)) > i, "it is none of the earlier numbers"),
                            (q(i) == boxi(i + 1), "it is the next number")):
                eng.prove(st, f, "lemma: " + what, None)
                st.assume_(f)
        eng.loops[c.t.func] = [LoopSpec(lambda t: True, inv, start=lemmas)]
        rets, raises = c.run(st, [SrcRoot()] + ([Sym("V", META)] if given else []), self_=me)
        w = "" if given else "without metadata: "
        good = z3.And(0 <= k, k < NENT, eisdir(k) == lit("directory"), isvd(ename(k)))
        for s, e in raises:
            n = s.ghost["~given"]
            c.prove(s, n == 0, w + "refused before anything is given (%s)" % e.name)
        for s, v in rets:
            c.cover_any(s, w + "given")
            c.prove(s, z3.ForAll([k], z3.Implies(good, z3.And(vnum(ename(k)) <= s.ghost["~given"])), patterns=[ename(k)]), w + "all version directories are given")


@task("C07", "new_version.NewVersion.first_version", setup=lambda eng: None, clause="a first version as asked for, still without content")
def first_version(c):
    eng = c.eng
    eng.summaries["fsw.fsw_openfs"] = lambda eng, st, env, node: [(st, Opened(eng.toV(env["fs_url"])))]
    eng.summaries["w3c_datetime.datetime_to_str"] = lambda eng, st, env, node: [(st.assume(kind(z3.Const("now", V)) == KS), Sym("V", z3.Const("now", V)))]
    eng.summaries["inventory.Inventory._next_version_directory"] = lambda eng, st, env, node: [(st, "v1")]       # below, with C10: no version yet, no padding asked for
    from pyvc.values import ClassV
    F = lambda n: z3.Const("asked_" + n, V)
    for meta in (None, "empty", "full"):
        for cd in (True, False):
            st = State()
            me = c.eng.repo.module("new_version").classes["NewVersion"]
            st.assume_(z3.And(*[kind(F(n)) == KS for n in ("srcdir", "identifier", "spec_version", "digest_algorithm", "content_directory", "created", "message", "name", "address")]))
            st.assume_(z3.And(F("created") != lit(""), *[F(n) != noneV for n in ("content_directory", "created", "message", "name", "address", "digest_algorithm")]))
            names = ["srcdir", "identifier", "spec_version", "digest_algorithm", "dedupe", "content_path_normalization"] + (["content_directory"] if cd else [])
            kw = {n: Sym("V", F(n)) for n in names}
            if meta:
                full = meta == "full"
                kw["metadata"] = c.inst(st, "version_metadata", "VersionMetadata", {n: Sym("V", F(n)) if full else None for n in ("created", "message", "name", "address")})
            rets, raises = c.run(st, [], kw, self_=ClassV(me))
            w = "%s metadata, %s content directory: " % (meta or "no", "a given" if cd else "the default")
            for s, e in raises:
                eng.unreachable(s, w + "no exception (%s)" % e.name)
            for s, nv in rets:
                c.cover_any(s, w + "started")
                f = s.heap[nv.oid].fields
                d = s.heap[s.heap[f["inventory"].oid].fields["data"].oid].items
                is_ = lambda n, t: c.prove(s, eng.toV(d[n]) == t if n in d else z3.BoolVal(False), w + n)
                is_("id", F("identifier"))
                is_("digestAlgorithm", F("digest_algorithm"))
                is_("type", vconcat([lit("https://ocfl.io/"), F("spec_version"), lit("/spec/#inventory")]))
                is_("head", lit("v1"))
                if cd:
                    c.prove(s, eng.toV(d["contentDirectory"]) == F("content_directory") if "contentDirectory" in d else F("content_directory") == lit("content"), w + "contentDirectory")
                else:
                    c.prove(s, z3.BoolVal("contentDirectory" not in d), w + "contentDirectory")
                c.prove(s, z3.BoolVal(s.heap[d["manifest"].oid].items == {}), w + "nothing in the manifest yet")
                vs = s.heap[d["versions"].oid].items
                c.prove(s, z3.BoolVal(list(vs) == ["v1"]), w + "one version")
                v1 = s.heap[vs["v1"].oid].items
                c.prove(s, z3.BoolVal(s.heap[v1["state"].oid].items == {}), w + "with an empty state")
                want = {"created": F("created") if meta == "full" else z3.Const("now", V), "message": F("message")} if meta else {}
                if meta == "empty":
                    want.pop("message")
                for n, t in want.items():
                    c.prove(s, eng.toV(v1[n]) == t if n in v1 else z3.BoolVal(False), w + n)
                c.prove(s, z3.BoolVal(set(v1) - {"state", "user"} == set(want)), w + "no other metadata")
                if meta == "full":
                    u = s.heap[v1["user"].oid].items
                    c.prove(s, z3.And(eng.toV(u["name"]) == F("name"), eng.toV(u["address"]) == F("address")) if set(u) == {"name", "address"} else z3.BoolVal(False), w + "user")
                else:
                    c.prove(s, z3.BoolVal("user" not in v1), w + "user")
                c.prove(s, z3.And(eng.toV(f["dedupe"]) == F("dedupe"), eng.toV(f["content_path_normalization"]) == F("content_path_normalization")), w + "the options are taken over")
                c.prove(s, z3.BoolVal(isinstance(f["src_fs"], Opened) and f["src_fs"].p.eq(F("srcdir"))), w + "files come from the source given")
                c.prove(s, z3.BoolVal(s.heap[f["files_to_copy"].oid].items == {}), w + "nothing is to be copied yet")
                c.prove(s, z3.BoolVal(f["old_digest_algorithm"] is None), w + "no change of algorithm")


class Opened:
    """A filesystem opened for a name."""

    def __init__(self, p):
        self.p = p

    def same_val(self, o):
        return isinstance(o, Opened) and o.p.eq(self.p)

    def truth(self, eng, st):
        return [(st, True)]


@task(["C06", "C08", "C10"], "inventory.Inventory._next_version_directory", setup=lambda eng: None, clause="the first name if there is no version, else the name after the last one")
def next_directory(c):
    eng = c.eng
    N_, vl = z3.Const("number_of_versions", IntS), z3.Function("version_name", IntS, V)
    nextv, WIDTH, FIRST = z3.Function("next_version_name", V, V), z3.Const("zero_padded_width", V), z3.Const("first_version_name", V)
    st = State()
    st.fact_(N_ >= 0)
    A(st, [k], z3.Implies(z3.And(0 <= k, k < N_), z3.And(isvd(vl(k)), kind(vl(k)) == KS, vnum(vl(k)) >= 1)), vl(k))
    st.fact_(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < N_), vnum(vl(j)) < vnum(vl(k))), patterns=[z3.MultiPattern(vl(j), vl(k))]))

    class Names:
        def view(self, eng, st, node):
            return View(st, N_, lambda i: Sym("V", vl(i)), pats=lambda i: [vl(i)])

        def same_val(self, o):
            return isinstance(o, Names)

    def s_parse(eng, st, env, node):
        """Contract of parse_version_directory (proved for C10)."""
        t = eng.toV(env["dirname"])
        st = eng.raise_if(st, z3.Not(isvd(t)), Exc(cls(eng, "object_utils", "ObjectException")))
        return [(st.assume(vnum(t) >= 1), Sym("int", vnum(t)))] if st is not None else []

    def s_next(eng, st, env, node):
        """Contract of next_version_directory (proved for C10)."""
        t = eng.toV(env["vdir"])
        st = eng.raise_if(st, z3.Or(t == noneV, z3.Const("no_next_name", BoolS)), Exc(cls(eng, "object_utils", "ObjectException")))
        return [(st.assume(kind(nextv(t)) == KS), Sym("V", nextv(t)))] if st is not None else []

    def s_first(eng, st, env, node):
        """Contract of first_version_directory (proved for C10)."""
        eng.prove(st, eng.toV(env.get("zero_padded_width")) == WIDTH, "with the number of digits asked for", node)
        return [(st.assume(kind(FIRST) == KS), Sym("V", FIRST))]
    eng.summaries.update({"inventory.Inventory.version_directories": lambda eng, st, env, node: [(st, Names())],       # proved for C20: in order of the numbers
                          "object_utils.parse_version_directory": s_parse, "object_utils.next_version_directory": s_next, "object_utils.first_version_directory": s_first})

    def inv(l):
        out = []
        for n in sorted(l.mods):
            v = l.st.env.get(n)
            if n not in l.entry.env:
                continue
            if isinstance(v, Sym) and v.sort == "int" or isinstance(v, int):
                out.append(("the highest number", eng.toint(v) == z3.If(l.i == 0, 0, vnum(vl(l.i - 1)))))
            elif v is None or isinstance(v, Sym) and v.sort == "V":
                out.append(("the last name", z3.Implies(l.i > 0, eng.toV(v) == vl(l.i - 1))))
        return out
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, inv)]
    inv_ = c.inst(st, "inventory", "Inventory", {"data": Opaque("data")})
    rets, raises = c.run(st, [], {"zero_padded_width": Sym("V", WIDTH)}, self_=inv_)
    for s, e in raises:
        c.prove(s, z3.And(N_ > 0, z3.Const("no_next_name", BoolS)), "refused only if the last name has no successor (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "given")
        c.prove(s, eng.toV(v) == z3.If(N_ == 0, FIRST, nextv(vl(N_ - 1))), "the name after the last one")


# ---- starting a version of an existing object ----
MAN, STATE, OLDALG, NEWALG = z3.Const("manifest", V), z3.Function("state_of_version", V, V), z3.Const("old_algorithm", V), z3.Const("asked_digest_algorithm", V)
NV_, vl_ = z3.Const("number_of_versions", IntS), z3.Function("version_name", IntS, V)
newd, oldd = z3.Function("new_digest_of", V, V), z3.Function("old_digest_of", V, V)
nfix, fixkey = z3.Const("number_of_fixity_types", IntS), z3.Function("fixity_type", IntS, V)
SetV = z3.ArraySort(V, BoolS)
key, nk, kidx = V_.key, V_.nk, V_.kidx


class VersionNames:
    def view(self, eng, st, node):
        return View(st, NV_, lambda i: Sym("V", vl_(i)), pats=lambda i: [vl_(i)])

    def same_val(self, o):
        return isinstance(o, VersionNames)


class FixKeys(VersionNames):
    def view(self, eng, st, node):
        return View(st, nfix, lambda i: Sym("V", fixkey(i)), pats=lambda i: [fixkey(i)])


class Fix:
    """The fixity block; what is in it does not matter here."""

    def same_val(self, o):
        return isinstance(o, Fix)

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", nfix > 0))

    def method(self, eng, st, name, a, kw, node):
        if name == "keys":
            return [(st, FixKeys())]
        if name == "pop":
            return [(st, Opaque("fixity entry"))]
        raise Unsupported("method %s of fixity" % name, node)


def converted(S, v, m):
    """The map m is the state of version v with the new digests."""
    return z3.And(z3.ForAll([x], z3.Implies(has(STATE(v), x), z3.And(m.dom[newd(x)], m.val[newd(x)] == get(STATE(v), x))), patterns=[has(STATE(v), x)]),
                  z3.ForAll([x], z3.Implies(m.dom[x], z3.And(has(STATE(v), oldd(x)), newd(oldd(x)) == x)), patterns=[m.dom[x]]))


class Ver:
    """A version of the inventory."""

    def __init__(self, v):
        self.v = v

    def same_val(self, o):
        return isinstance(o, Ver) and o.v.eq(self.v)

    def getattr(self, eng, st, name, node):
        if name == "state":
            eng.prove(st, z3.Not(st.ghost["~done"][self.v]), "the state before the conversion is read", node)
            return [(st, Sym("V", STATE(self.v)))]
        raise Unsupported("version attribute " + name, node)

    def setattr(self, eng, st, name, v, node):
        if name != "state":
            raise Unsupported("version attribute " + name, node)
        from pyvc.loops import acc
        st = st.copy()
        if isinstance(v, V_.Ref):
            acc(eng, st, v.oid)
            m = st.heap[v.oid]
        else:
            raise Unsupported("state that is no dict", node)
        eng.prove(st, converted(None, self.v, m), "the state of the version with the new digests: the same logical paths for the same content", node)
        st.ghost["~done"] = z3.Store(st.ghost["~done"], self.v, z3.BoolVal(True))
        return [st]


@task(BOTH, OB + "start_new_version", setup=setup, clause="invalid: refused; otherwise the version asked for, with manifest and states as they were (in new digests after a change of algorithm); nothing is written")
def start_version(c):
    eng = c.eng
    for fixed in (False, True):
        for same in (True, None, False):
            start_one(c, fixed, same)


def start_one(c, fixed, same):
    eng = c.eng
    eng.mod_cache.clear()
    st = State()
    obj, S0 = storage(eng, st, "object")
    st.ghost["~done"] = z3.K(V, z3.BoolVal(False))
    VALID = z3.Const("object_is_valid", BoolS)
    A0 = z3.Const("no_versions_done", SetV)
    # a valid inventory (C01): every digest has a content path, a file of the object; every digest of a state is in the manifest
    st.fact_(z3.And(NV_ >= 0, nfix >= 0, kind(MAN) == KD, kind(OLDALG) == KS, kind(SPECV) == KS, kind(NEWALG) == KS, OLDALG != noneV, NEWALG != noneV))
    A(st, [x], z3.Implies(has(MAN, x), z3.And(kind(x) == KS, kind(get(MAN, x)) == KL, jlen(get(MAN, x)) >= 1)), has(MAN, x))
    A(st, [x, j], z3.Implies(z3.And(has(MAN, x), 0 <= j, j < jlen(get(MAN, x))), z3.And(kind(at(get(MAN, x), j)) == KS, S0.files[at(get(MAN, x), j)])), at(get(MAN, x), j))
    A(st, [k], z3.And(kind(vl_(k)) == KS, z3.Implies(z3.And(0 <= k, k < NV_), kind(STATE(vl_(k))) == KD)), vl_(k))
    A(st, [x, y], z3.Implies(has(STATE(x), y), has(MAN, y)), has(STATE(x), y))
    st.fact_(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < NV_), vl_(j) != vl_(k)), patterns=[z3.MultiPattern(vl_(j), vl_(k))]))
    A(st, [k], kind(fixkey(k)) == KS, fixkey(k))
    # the digest of the content recorded under an old digest; different old digests are those of different contents, and digests do not collide
    A(st, [x], z3.Implies(has(MAN, x), z3.And(newd(x) == dig(S0.content[at(get(MAN, x), 0)], NEWALG), oldd(newd(x)) == x)), has(MAN, x))
    asked_alg = {True: OLDALG, None: None, False: NEWALG}[same]
    if same is False:
        st.assume_(NEWALG != OLDALG)
    me = c.inst(st, "object", "Object", {**{n: Sym("V", field(n)) for n in FIELDS}, "obj_fs": obj, "lax_digests": Sym("V", field("lax_digests"))})
    inv = c.inst(st, "inventory", "Inventory", {"_alg": Sym("V", OLDALG), "_manifest": Sym("V", MAN)})
    I = "inventory.Inventory."

    def getter(n):
        return lambda eng, st, env, node: [(st, st.heap[inv.oid].fields[n])]

    def setter(n, arg="value"):
        def f(eng, st, env, node):
            st = st.copy()
            o = st.heap[inv.oid]
            v = env[arg]
            if isinstance(v, V_.Ref):
                from pyvc.loops import acc
                acc(eng, st, v.oid)
            st.heap[inv.oid] = Inst(o.cls, {**o.fields, n: v})
            return [(st, None)]
        return f

    def s_open(eng, st, env, node):
        eng.prove(st, z3.And(eng.toV(env["objdir"]) == OBJD, z3.BoolVal(not env.get("create", False))), "the object asked for is opened, not created", node)
        st = eng.raise_if(st, z3.Const("cannot_open", BoolS), Exc(cls(eng, "object_utils", "ObjectException")))
        return [(st, None)] if st is not None else []

    def s_valid(eng, st, env, node):
        return [(st, Checker(obj, VALID))]
    D = lambda: z3.Const("carry", V)
    started = []

    def s_next(eng, st, env, node):
        """Contract of next_version (proved for C06)."""
        started.append(1)
        eng.prove(st, VALID, "only a valid object gets a new version", node)
        eng.prove(st, z3.BoolVal(env["inventory"] == inv), "on the inventory of the object", node)
        asked(eng, st, env, {"srcdir": SRCD, "metadata": z3.Const("metadata", V), "carry_content_forward": D(), "spec_version": SPECV, "old_digest_algorithm": OLDALG,
                             **{n: field(n) for n in ("content_path_normalization", "forward_delta", "dedupe")}}, node)
        f = st.heap[inv.oid].fields
        eng.prove(st, eng.toV(f["_alg"]) == (NEWALG if same is False else OLDALG), "with the digest algorithm asked for, or the one there was", node)
        m = f["_manifest"]
        q = fresh("V", "q")
        if same is False:
            for s2, m in eng.split(st, m):
                if not isinstance(m, V_.Ref):
                    eng.prove(s2, z3.BoolVal(False), "the manifest is in the new digests", node)
                    continue
                m = s2.heap[m.oid]
                eng.prove(s2, z3.Implies(has(MAN, q), z3.And(m.dom[newd(q)], m.val[newd(q)] == get(MAN, q))), "the same content paths under the new digest of their content", node)
                eng.prove(s2, z3.Implies(m.dom[q], z3.And(has(MAN, oldd(q)), newd(oldd(q)) == q)), "nothing else in the manifest", node)
            kk = fresh("int", "k")
            eng.prove(st, z3.Implies(z3.And(0 <= kk, kk < NV_), st.ghost["~done"][vl_(kk)]), "every version's state is in the new digests", node)
        else:
            eng.prove(st, eng.toV(m) == MAN if not isinstance(m, V_.Ref) else z3.BoolVal(False), "the manifest is as it was", node)
            eng.prove(st, z3.Not(st.ghost["~done"][q]), "the states are as they were", node)
        return [(st, Opaque("new version"))]
    eng.summaries.update({I + "digest_algorithm": getter("_alg"), I + "digest_algorithm!set": setter("_alg"), I + "manifest": getter("_manifest"), I + "manifest!set": setter("_manifest"),
                          I + "fixity": lambda eng, st, env, node: [(st, Fix())], I + "add_fixity_type": lambda eng, st, env, node: [(st, None)],
                          I + "version_directories": lambda eng, st, env, node: [(st, VersionNames())], I + "spec_version": lambda eng, st, env, node: [(st, Sym("V", SPECV))],
                          I + "version": lambda eng, st, env, node: [(st, Ver(eng.toV(env["vdir"])))],
                          OB + "parse_inventory": lambda eng, st, env, node: [(st, inv)], OB + "open_obj_fs": s_open, "validator.Validator": s_valid,
                          "digest.file_digest": s_digest(obj), "new_version.NewVersion.next_version": s_next})
    eng.ext["copy.deepcopy"] = lambda eng, st, a, kw, node: [(st, a[0])]

    def manifest_inv(l):
        byname = [(n, l.st.env[n]) for n in ("old_to_new_digest", "new_manifest") if isinstance(l.st.env.get(n), V_.Ref)]
        if len(byname) == 2:
            oids = [r.oid for _, r in byname]
        else:
            oids = sorted(o for o in l.modobjs if isinstance(l.st.heap.get(o), V_.MapObj))
        if len(oids) != 2:
            return []
        a, b = [l.st.heap[o] for o in oids]
        if not (isinstance(a, V_.MapObj) and isinstance(b, V_.MapObj)):
            return []
        seen = lambda t: z3.And(has(MAN, t), kidx(MAN, t) < l.i)
        return [("digests so far", z3.ForAll([x], z3.Implies(seen(x), z3.And(a.dom[x], a.val[x] == newd(x), b.dom[newd(x)], b.val[newd(x)] == get(MAN, x))), patterns=[has(MAN, x)])),
                ("old digests only", z3.ForAll([x], z3.Implies(a.dom[x], seen(x)), patterns=[a.dom[x]])),
                ("new digests only", z3.ForAll([x], z3.Implies(b.dom[x], z3.And(seen(oldd(x)), newd(oldd(x)) == x)), patterns=[b.dom[x]]))]

    def top(l):
        if l.it is not None and z3.is_expr(l.it) and l.it.eq(MAN):
            return manifest_inv(l)
        g = l.st.ghost["~done"]
        if same is False and not l.eng.feasible(l.st, l.n != NV_) or l.n.eq(NV_):
            return [("states so far", z3.And(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NV_), g[vl_(k)] == (k < l.i)), patterns=[vl_(k)])))]
        return []

    def nested(l):
        maps = [l.st.heap[o] for o in l.modobjs if isinstance(l.st.heap.get(o), V_.MapObj)]
        if len(maps) != 1 or l.it is None or not z3.is_expr(l.it):
            return []
        T, m = l.it, maps[0]
        seen = lambda t: z3.And(has(T, t), kidx(T, t) < l.i)
        return [("the state so far", z3.ForAll([x], z3.Implies(seen(x), z3.And(m.dom[newd(x)], m.val[newd(x)] == get(T, x))), patterns=[has(T, x)])),
                ("nothing else in the state", z3.ForAll([x], z3.Implies(m.dom[x], z3.And(seen(oldd(x)), newd(oldd(x)) == x)), patterns=[m.dom[x]]))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, top, depth=0), LoopSpec(lambda t: True, nested, depth=1)]
    kw = {"objdir": Sym("V", OBJD), "srcdir": Sym("V", SRCD), "metadata": Sym("V", z3.Const("metadata", V)), "carry_content_forward": Sym("V", D())}
    if asked_alg is not None:
        kw["digest_algorithm"] = Sym("V", asked_alg)
    if fixed:
        FX = z3.Const("fixity_asked", V)
        st.assume_(z3.And(kind(FX) == KL, FX != noneV))
        st.fact_(z3.ForAll([j], kind(at(FX, j)) == KS, patterns=[at(FX, j)]))
        kw["fixity"] = Sym("V", FX)
    rets, raises = c.run(st, [], kw, self_=me)
    w = "%s algorithm, %s fixity: " % ({True: "same", None: "no", False: "new"}[same], "given" if fixed else "no")
    for s, e in raises:
        S1 = s.heap[obj.ref.oid]
        c.prove(s, z3.And(S1.files == S0.files, S1.content == S0.content, S1.dirs == S0.dirs), w + "refused: nothing is written (%s)" % e.name)
        if same is not False:
            c.prove(s, z3.Or(z3.Not(VALID), z3.Const("cannot_open", BoolS)), w + "refused only if it cannot be opened or is not valid (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, w + "started")
        S1 = s.heap[obj.ref.oid]
        c.prove(s, VALID, w + "only for a valid object")
        c.prove(s, z3.And(S1.files == S0.files, S1.content == S0.content, S1.dirs == S0.dirs), w + "nothing is written yet")
    if not started:
        c.prove(st, z3.BoolVal(False), w + "a version is started")


class Checker:
    """A validator (C01 to C05)."""

    def __init__(self, obj, valid):
        self.obj, self.valid = obj, valid

    def same_val(self, o):
        return isinstance(o, Checker)

    def truth(self, eng, st):
        return [(st, True)]

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def method(self, eng, st, name, a, kw, node):
        if name == "validate_object":
            eng.prove(st, same_fs(a[0], self.obj), "the object is validated", node)
            return [(st, Sym("bool", self.valid))]
        if name == "status_str":
            return [(st, Opaque("status"))]
        raise Unsupported("validator method " + name, node)


@task("C07", "new_version.NewVersion.add_from_srcdir", setup=lambda eng: None, clause="every file of the source is added once, under its own path")
def add_source(c):
    eng = c.eng
    st = State()
    FILES = z3.Const("files_of_the_source", SetS)
    st.fact_(z3.ForAll([x], z3.Implies(FILES[x], kind(x) == KS), patterns=[FILES[x]]))
    st.ghost["~added"] = z3.K(V, z3.BoolVal(False))
    st.ghost["~when"] = z3.K(V, z3.IntVal(-1))
    src = Opened(z3.Const("srcdir", V))
    me = c.inst(st, "new_version", "NewVersion", {"src_fs": src, "inventory": Opaque("inventory")})

    def s_walk(eng, st, env, node):
        """Contract of fsw_walk_files (proved for C16): every file once."""
        eng.prove(st, z3.BoolVal(env["fs"] is src), "the files of the source", node)
        eng.prove(st, z3.BoolVal(env.get("dir", "/") in ("/", "")), "all of them", node)
        st = st.copy()
        return [(st, eng.alloc(st, V_.AccList(FILES, V_.card(FILES))))]

    def s_add(eng, st, env, node):
        """Contract of add (proved for C06)."""
        p = eng.toV(env["src_path"])
        eng.prove(st, z3.And(FILES[p], eng.toV(env["logical_path"]) == p), "a file of the source, under its own path", node)
        eng.prove(st, z3.BoolVal(env.get("content_path") is None), "the content path is the one the settings give", node)
        eng.prove(st, z3.Not(st.ghost["~added"][p]), "no file twice", node)
        st = eng.raise_if(st, z3.Const("add_refused", BoolS), Exc(cls(eng, "new_version", "NewVersionException")))
        st = st.copy()
        i = st.ghost["loopidx"][0]
        st.ghost["~added"] = z3.Store(st.ghost["~added"], p, z3.BoolVal(True))
        st.ghost["~when"] = z3.Store(st.ghost["~when"], p, i)
        return [(st, None)]
    eng.summaries.update({"fsw.fsw_walk_files": s_walk, "new_version.NewVersion.add": s_add})

    def inv(l):
        q, g, t = l.view_seq, l.st.ghost["~added"], l.st.ghost["~when"]
        return [("added so far", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), g[q(k)]), patterns=[q(k)])),
                ("nothing else", z3.ForAll([x], z3.Implies(g[x], z3.And(0 <= t[x], t[x] < l.i, q(t[x]) == x, FILES[x])), patterns=[g[x]]))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, inv)]
    rets, raises = c.run(st, [], self_=me)
    for s, e in raises:
        c.prove(s, z3.Const("add_refused", BoolS), "refused only if a file cannot be added (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "added")
        c.prove(s, z3.Implies(FILES[x], s.ghost["~added"][x]), "every file is added")
