"""C13: creating a storage root and adding objects to it (ocfl/storage_root.py, ocfl/object.py, ocfl/layout.py)."""
import z3

from pyvc import values as V_
from pyvc.engine import LoopSpec, State, LostAnnotation
from pyvc.fsmodel import storage, FsV, Storage
from pyvc.builtins_model import s_starts, s_segat, s_nseg, s_pre
from pyvc.task import task
from pyvc.values import Bound, Sym, Opaque, Ref, Exc, Inst, DictObj, V, fresh, kind, lit, KS, KD, IntS, BoolS, Unsupported

from .storage_root import R, root, VERSIONS, log_setup

SLASH, ZERO, EXT, ROOT = lit("/"), lit("0="), lit("extensions"), lit("/")
P, ID = z3.Const("path_of_the_object", V), z3.Const("id_of_the_object", V)
ndecl = z3.Function("declarations_in", V, IntS)           # directory -> how many declarations of level 0
dirn = z3.Function("dirname", V, V)
depth = z3.Function("depth", V, IntS)
x, n = z3.Const("x", V), z3.Int("n")


def sre(eng):
    return eng.repo.module("storage_root").classes["StorageRootException"]


def cls(eng, mod, name):
    return eng.repo.module(mod).classes[name]


def plain_facts(st):
    """A path made of names joined by "/" (what the layouts give, C11): its directories are its initial parts."""
    st.fact_(z3.And(kind(P) == KS, P != lit(""), s_nseg(P, SLASH) >= 1, s_pre(P, SLASH, s_nseg(P, SLASH)) == P, s_pre(P, SLASH, z3.IntVal(0)) == lit("")))
    u = s_pre(P, SLASH, n)
    st.fact_(z3.ForAll([n], z3.Implies(z3.And(1 <= n, n <= s_nseg(P, SLASH)), z3.And(u != lit(""), dirn(u) == s_pre(P, SLASH, n - 1))), patterns=[u]))
    st.fact_(z3.ForAll([n], z3.Implies(z3.And(0 <= n, n <= s_nseg(P, SLASH)), z3.And(depth(u) == n, kind(u) == KS)), patterns=[u]))


class Count:
    """What find_namastes finds in a directory: only how many there are matters."""

    def __init__(self, d):
        self.d = d

    def len_(self, eng, st, node):
        return [(st, Sym("int", ndecl(self.d)))]

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", ndecl(self.d) > 0))

    def same_val(self, o):
        return isinstance(o, Count) and o.d.eq(self.d)


def same_fs(v, fs):
    """Whether a value is this filesystem."""
    if isinstance(v, V_.Union):
        return z3.Or(*[g for g, a in v.alts if a == fs])
    return z3.BoolVal(v == fs)


OPENED, CHECKED, SRCOK, INVOK, PATHOK, COPYOK = [z3.Const(t, BoolS) for t in ("root_opens", "root_structure_sound", "source_opens", "source_inventory_valid", "layout_gives_a_path", "copy_succeeds")]


@task("C13", R + "add", clause="copies the whole object to its place, or refuses and leaves the root as it was")
def add(c):
    eng = c.eng
    eng.split_returns = True
    st = State()
    plain_facts(st)
    fs, S0 = storage(eng, st, "root")
    src, O0 = storage(eng, st, "source")
    st.fact_(z3.ForAll([x], ndecl(x) >= 0, patterns=[ndecl(x)]))
    st.assume_(kind(ID) == KS)
    me = root(c, st, root_fs=None)
    where = fresh("V", "object_path")
    st.assume_(kind(where) == KS)
    eng.ext["os.path.dirname"] = lambda eng, st, a, kw, node: [(st, Sym("V", dirn(eng.toV(a[0]))))]
    eng.ext["os.path.join"] = lambda eng, st, a, kw, node: [(st, Opaque("joined"))]

    def fields(st, ref, **kw):
        st = st.copy()
        o = st.heap[ref.oid]
        st.heap[ref.oid] = Inst(o.cls, dict(o.fields, **kw))
        return st

    def s_open(eng, st, env, node):
        st = eng.raise_if(st, z3.Not(OPENED), Exc(sre(eng)))
        return [] if st is None else [(fields(st, env["self"], root_fs=fs), None)]

    def s_check(eng, st, env, node):
        st = eng.raise_if(st, z3.Not(CHECKED), Exc(sre(eng)))
        return [] if st is None else [(st, True)]

    def s_src(eng, st, env, node):
        eng.prove(st, eng.toV(env["objdir"]) == where, "the object given is opened", node)
        eng.prove(st, z3.BoolVal(env.get("create") in (None, False)), "the object given is not created", node)
        st = eng.raise_if(st, z3.Not(SRCOK), Exc(cls(eng, "object_utils", "ObjectException")))
        return [] if st is None else [(fields(st, env["self"], obj_fs=src), None)]

    def s_inv(eng, st, env, node):
        f = st.heap[env["self"].oid].fields.get("obj_fs")
        eng.prove(st, same_fs(f, src), "the inventory of the object given is read", node)
        st = eng.raise_if(st, z3.Not(INVOK), Exc(cls(eng, "object_utils", "ObjectException")))
        if st is None:
            return []
        st = st.copy()
        st.ghost["validated"] = True
        return [(st, Inventory())]

    def s_path(eng, st, env, node):
        eng.prove(st, eng.toV(env["identifier"]) == ID, "the path of the object's id", node)
        st = eng.raise_if(st, z3.Not(PATHOK), Exc(cls(eng, "layout", "LayoutException")))
        return [] if st is None else [(st, Sym("V", P))]

    def s_find(eng, st, env, node):
        eng.prove(st, z3.BoolVal(env.get("d") == 0), "declarations of level 0", node)
        eng.prove(st, same_fs(env.get("fsw"), fs), "declarations in the root", node)
        return [(st, Count(eng.toV(env["dir"])))]

    def s_copy(eng, st, env, node):
        """Contract of fsw_copydir (proved for C16)."""
        eng.prove(st, same_fs(env.get("src_fs"), src), "files of the object are copied", node)
        p = eng.toV(env["src_path"])
        eng.prove(st, z3.Or(p == ROOT, p == lit("")), "all of the object is copied", node)
        eng.prove(st, same_fs(env.get("dst_fs"), fs), "copied into the root", node)
        eng.prove(st, eng.toV(env["dst_path"]) == P, "copied to the path of its id", node)
        eng.prove(st, free(st.heap[fs.ref.oid]), "copied only to a free and permitted place", node)
        eng.prove(st, z3.BoolVal(bool(st.ghost.get("validated"))), "copied only after its inventory was validated", node)
        st = st.copy()
        eng.prove(st, z3.BoolVal(not st.ghost.get("copied", ())), "copied once", node)
        st.ghost["copied"] = st.ghost.get("copied", ()) + (1,)
        st.heap[fs.ref.oid] = st.heap[fs.ref.oid].havoc(eng)
        st = eng.raise_if(st, z3.Not(COPYOK), Exc(OSError))
        return [] if st is None else [(st, None)]
    for q, f in ((R + "open_root_fs", s_open), (R + "check_root_structure", s_check), ("object.Object.open_obj_fs", s_src), ("object.Object.parse_inventory", s_inv), (R + "object_path", s_path),
                 ("namaste.find_namastes", s_find), ("fsw.fsw_copydir", s_copy)):
        eng.summaries[q] = f
    inside = lambda S, d: z3.And(S.dirs[d], ndecl(d) > 0)
    u = s_pre(P, SLASH, n)
    N = s_nseg(P, SLASH)
    reserved = z3.Or(s_starts(P, ZERO), s_segat(P, SLASH, z3.IntVal(0)) == EXT)

    def free(S):
        return z3.And(z3.Not(reserved), z3.Not(S.files[P]), z3.Not(S.dirs[P]), z3.ForAll([n], z3.Implies(z3.And(1 <= n, n < N), z3.Not(inside(S, u))), patterns=[u]))

    def upwards(l):
        cur = [l.st.env[v] for v in sorted(l.mods) if isinstance(l.st.env.get(v), Sym) and l.st.env[v].sort == "V"]
        if len(cur) != 1:
            raise LostAnnotation("one directory that changes expected")
        p = cur[0].t
        S = l.st.heap[fs.ref.oid]
        return [("a directory above the object", z3.And(0 <= depth(p), depth(p) < N, p == s_pre(P, SLASH, depth(p)))),
                ("no object in the directories looked at", z3.ForAll([n], z3.Implies(z3.And(depth(p) < n, n < N), z3.Not(inside(S, u))), patterns=[u]))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, upwards)]
    rets, raises = c.run(st, [Sym("V", where)], self_=me)
    sound = z3.And(OPENED, CHECKED, SRCOK, INVOK, PATHOK)
    for s, e in raises:
        S = s.heap[fs.ref.oid]
        if s.ghost.get("copied"):
            c.prove(s, z3.Not(COPYOK), "after the copy only a failure of the copy is an error")
        else:
            c.prove(s, z3.BoolVal(S.same(S0)), "a refusal leaves the root as it was")
            c.prove(s, z3.Not(z3.And(sound, free(S0))), "an object with a free and permitted place is not refused")
        c.prove(s, z3.BoolVal(s.heap[src.ref.oid].same(O0)), "the source is left as it was")
        c.prove(s, z3.BoolVal(e.name in ("StorageRootException", "ObjectException", "LayoutException")), "only the exceptions documented (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "added")
        c.prove(s, z3.BoolVal(len(s.ghost.get("copied", ())) == 1), "success only after the copy")
        c.prove(s, z3.And(sound, free(S0), COPYOK), "success only with a sound root, a valid inventory, a free and permitted place")
        c.prove(s, z3.BoolVal(s.heap[src.ref.oid].same(O0)), "the source is left as it was")
        ok = isinstance(v, tuple) and len(v) == 2
        c.prove(s, z3.And(eng.toV(v[0]) == ID, eng.toV(v[1]) == P) if ok else z3.BoolVal(False), "gives id and path")


class Inventory:
    """The inventory of the object given, found valid."""

    def getattr(self, eng, st, name, node):
        if name == "id":
            return [(st, Sym("V", ID))]
        raise Unsupported("attribute %s of the inventory" % name, node)

    def truth(self, eng, st):
        return [(st, True)]

    def same_val(self, o):
        return isinstance(o, Inventory)


# ---- object_path ----
HAVE, AFTER = z3.Const("layout_known", BoolS), z3.Const("layout_known_after_reading_the_root", BoolS)


class LayoutV:
    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return [(st, True)]

    def same_val(self, o):
        return isinstance(o, LayoutV)

    def method(self, eng, st, name, a, kw, node):
        if name == "identifier_to_path":
            eng.prove(st, eng.toV(a[0]) == ID, "the path of the id given", node)
            st = eng.raise_if(st, z3.Not(PATHOK), Exc(cls(eng, "layout", "LayoutException")))
            return [] if st is None else [(st, Sym("V", P))]
        raise Unsupported("method %s of a layout" % name, node)


@task("C13", R + "object_path", clause="the path of an id is that given by the layout of the root")
def object_path(c):
    eng = c.eng
    eng.split_returns = True

    def s_layout(eng, st, env, node):
        now = z3.And(CHECKED, AFTER) if st.ghost.get("read") else HAVE
        y, no = eng.fork(st, now)
        return ([(y, LayoutV())] if y is not None else []) + ([(no, None)] if no is not None else [])

    def s_open(eng, st, env, node):
        st = eng.raise_if(st, z3.Not(OPENED), Exc(sre(eng)))
        return [] if st is None else [(st, None)]

    def s_check(eng, st, env, node):
        st = eng.raise_if(st, z3.Not(CHECKED), Exc(sre(eng)))
        if st is None:
            return []
        st = st.copy()
        st.ghost["read"] = True
        return [(st, True)]
    eng.summaries[R + "layout"] = s_layout
    eng.summaries[R + "open_root_fs"] = s_open
    eng.summaries[R + "check_root_structure"] = s_check
    st = State()
    me = root(c, st)
    rets, raises = c.run(st, [Sym("V", ID)], self_=me)
    for s, v in rets:
        c.cover_any(s, "path")
        c.prove(s, eng.toV(v) == P, "the path given by the layout")
    for s, e in raises:
        c.prove(s, z3.Not(z3.And(PATHOK, z3.Or(HAVE, z3.And(OPENED, CHECKED, AFTER)))), "an id with a path is not refused")


# ---- initialize ----
PARAMS, JSONOK, WRITES = z3.Const("parameters_sound", BoolS), z3.Const("parameters_are_json", BoolS), z3.Const("parameters_can_be_written", BoolS)
LNAME, LDESC, PTEXT, PDOC = [z3.Const(t, V) for t in ("layout_name", "layout_description", "parameters_text", "parameters")]
ROOTP, PARENT, BASE = [z3.Const(t, V) for t in ("root_location", "parent_location", "root_directory_name")]
declared = {v: lit("ocfl_%s\n" % v) for v in VERSIONS}


class NewLayout(LayoutV):
    """The layout asked for."""

    def getattr(self, eng, st, name, node):
        if name in ("NAME", "DESCRIPTION"):
            return [(st, Sym("V", LNAME if name == "NAME" else LDESC))]
        return [(st, Bound(self, name))]

    def method(self, eng, st, name, a, kw, node):
        names = {"check_and_set_layout_params": ("config", "require_extension_name"), "write_layout_params": ("root_fs",)}
        if name not in names:
            raise Unsupported("method %s of a layout" % name, node)
        kw = dict(zip(names[name], a), **kw)
        st = st.copy()
        if name == "write_layout_params":
            eng.prove(st, same_fs(kw.get("root_fs"), eng.newroot), "parameters are written in the new root", node)
            st.ghost["params_written"] = True
            st = eng.raise_if(st, z3.Not(WRITES), Exc(cls(eng, "layout", "LayoutException")))
            return [] if st is None else [(st, None)]
        eng.prove(st, z3.And(eng.toV(kw["config"]) == PDOC, z3.BoolVal(kw.get("require_extension_name") is False)), "the parameters given are checked", node)
        st = eng.raise_if(st, z3.Not(PARAMS), Exc(cls(eng, "layout", "LayoutException")))
        if st is None:
            return []
        st.ghost["params_set"] = True
        return [(st, None)]


@task("C13", R + "initialize", clause="creates exactly the root asked for, or refuses and leaves everything as it was")
def initialize(c):
    eng = c.eng
    eng.split_paths = eng.split_returns = True
    default = "1.1"
    unknown = fresh("V", "other_version")
    for have in (False, True):
        for params in (False, True):
            for before in (None, "1.0"):
                for asked in (None, "1.0", "1.1", unknown):
                    one_root(c, have, params, before, asked, default)


def one_root(c, have, params, before, asked, default):
    eng = c.eng
    st = State()
    pfs, P0 = storage(eng, st, "parent")
    rfs, R0 = storage(eng, st, "root")
    eng.newroot = rfs
    st.fact_(z3.ForAll([x], z3.And(z3.Not(R0.files[x]), z3.Not(R0.dirs[x])), patterns=[R0.files[x], R0.dirs[x]]))      # as yet there is nothing
    st.assume_(z3.And(kind(ROOTP) == KS, kind(PARENT) == KS, kind(BASE) == KS, kind(LNAME) == KS, kind(PTEXT) == KS))
    if not isinstance(asked, (str, type(None))):
        st.assume_(z3.And(kind(asked) == KS, *[asked != lit(v) for v in VERSIONS]))
    me = root(c, st, root=Sym("V", ROOTP), root_fs=None, spec_version=before)
    there = z3.Or(P0.files[BASE], P0.dirs[BASE])

    def s_openfs(eng, st, env, node):
        t = eng.toV(env["fs_url"])
        eng.prove(st, z3.BoolVal(env.get("create", False) is False), "opened as it is", node)
        if st.ghost.get("made"):
            eng.prove(st, t == ROOTP, "the new root is opened", node)
            return [(st, rfs)]
        eng.prove(st, t == PARENT, "the directory above is opened", node)
        st = eng.raise_if(st, z3.Not(OPENED), FileNotFoundError)
        return [] if st is None else [(st, pfs)]

    def s_split(eng, st, a, kw, node):
        eng.prove(st, eng.toV(a[0]) == ROOTP, "the location of the root is split", node)
        return [(st, (Sym("V", PARENT), Sym("V", BASE)))]

    def made(eng, st, S, p, a, kw, node):
        eng.prove(st, p == BASE, "the directory of the root is made", node)
        eng.prove(st, z3.Not(there), "made only where there was nothing", node)
        st = st.copy()
        st.ghost["made"] = True
        st.heap[pfs.ref.oid] = S.with_(dirs=z3.Store(S.dirs, p, z3.BoolVal(True)), touched=z3.Store(S.touched, p, z3.BoolVal(True)))
        return [(st, None)]
    pfs.m_makedir = pfs.m_mkdir = made

    def s_write(eng, st, env, node):
        """Contract of Namaste.write (proved for C18)."""
        f = st.heap[env["self"].oid].fields
        eng.prove(st, z3.BoolVal(f["d"] == 0), "a declaration of level 0", node)
        eng.prove(st, same_fs(env.get("fsw"), rfs), "declared in the new root", node)
        eng.prove(st, z3.BoolVal(env.get("dir", "") in ("", None)), "declared at the top", node)
        t = f["content"]
        if not isinstance(t, str):
            raise Unsupported("declaration %r" % (t,), node)
        st = st.copy()
        S = st.heap[rfs.ref.oid]
        st.heap[rfs.ref.oid] = S.write(lit("0=" + t), lit(t + "\n"))
        return [(st, None)]

    def s_loads(eng, st, a, kw, node):
        eng.prove(st, eng.toV(a[0]) == PTEXT, "the parameters given are parsed", node)
        st = eng.raise_if(st, z3.Not(JSONOK), Exc(ValueError))
        return [] if st is None else [(st, Sym("V", PDOC))]

    def s_dump(eng, st, a, kw, node):
        f = st.heap[a[1].oid]
        st = st.copy()
        d = a[0]
        items = st.heap[d.oid].items if hasattr(d, "oid") and isinstance(st.heap[d.oid], DictObj) else None
        if items is None:
            raise Unsupported("json.dump of %r" % (d,), node)
        st.ghost["dumped"] = st.ghost.get("dumped", ()) + ((f.path, items),)
        return [(st, None)]
    eng.ext["os.path.split"] = s_split
    eng.ext["json.loads"] = s_loads
    eng.ext["json.dump"] = s_dump
    eng.summaries[R + "layout"] = lambda eng, st, env, node: [(st, NewLayout() if have else None)]
    eng.summaries["fsw.fsw_openfs"] = s_openfs
    eng.summaries["namaste.Namaste.write"] = s_write
    asked_v = asked if isinstance(asked, (str, type(None))) else Sym("V", asked)
    rets, raises = c.run(st, [asked_v, Sym("V", PTEXT) if params else None], self_=me)
    w = "%s, %s, version %s" % ("layout" if have else "no layout", "parameters" if params else "no parameters", (asked if isinstance(asked, str) else "unsupported" if asked is not None else before or "default"))
    version = (asked or before or default) if isinstance(asked, (str, type(None))) else None
    ok = z3.And(z3.BoolVal(version is not None), z3.Implies(z3.BoolVal(have and params), z3.And(JSONOK, PARAMS)), OPENED, z3.Not(there))
    for s, e in raises:
        if s.ghost.get("params_written"):
            c.prove(s, z3.Not(WRITES), w + ": refused after the root was made only for a failure to write")
            continue
        c.prove(s, z3.Not(ok), w + ": what can be made is not refused (%s)" % e.name)
        c.prove(s, z3.And(z3.BoolVal(s.heap[pfs.ref.oid].same(P0)), z3.BoolVal(s.heap[rfs.ref.oid].same(R0))), w + ": a refusal leaves everything as it was")
        c.prove(s, z3.BoolVal(e.name in ("StorageRootException", "LayoutException") + (("FileNotFoundError",))), w + ": only the exceptions documented (%s)" % e.name)
    for s, v in rets:
        if version is None:
            c.prove(s, z3.BoolVal(False), w + ": an unsupported version is refused")
            continue
        c.cover_any(s, w)
        c.prove(s, ok, w + ": success only for what can be made")
        f = s.heap[me.oid].fields
        R1 = s.heap[rfs.ref.oid]
        decl = lit("0=ocfl_" + version)
        lay = lit("ocfl_layout.json")
        c.prove(s, eng.toV(f["spec_version"]) == lit(version), w + ": the version asked for")
        c.prove(s, z3.And(z3.BoolVal(bool(s.ghost.get("made"))), same_fs(f["root_fs"], rfs)), w + ": the root is made and open")
        c.prove(s, z3.And(R1.files[decl], R1.content[decl] == declared[version]), w + ": the declaration of the version")
        q = fresh("V", "other")
        c.prove(s.assume(R1.files[q]), z3.Or(q == decl, q == lay) if have else q == decl, w + ": no other file")
        d = s.ghost.get("dumped", ())
        if have:
            c.prove(s, R1.files[lay], w + ": the layout file is there")
            good = len(d) == 1 and set(d[0][1]) == {"extension", "description"}
            c.prove(s, z3.And(d[0][0] == lay, eng.toV(d[0][1]["extension"]) == LNAME, eng.toV(d[0][1]["description"]) == LDESC) if good else z3.BoolVal(False), w + ": the layout file names the layout")
            c.prove(s, z3.BoolVal(bool(s.ghost.get("params_written"))), w + ": the parameters of the layout are written")
            c.prove(s, z3.BoolVal(bool(s.ghost.get("params_set")) == params), w + ": with the parameters given")
        else:
            c.prove(s, z3.BoolVal(not d), w + ": no layout file")


# ---- write_layout_params, read_layout_params ----
CFG, CFILE = z3.Const("configuration", V), z3.Const("configuration_file", V)
HAVECFG = z3.Const("layout_has_parameters", BoolS)


def lay_setup(eng):
    def s_config(eng, st, env, node):
        y, no = eng.fork(st, HAVECFG)
        return ([(y, Sym("V", CFG))] if y is not None else []) + ([(no, None)] if no is not None else [])
    eng.split_returns = True
    eng.summaries["layout.Layout.config"] = s_config
    eng.summaries["layout.Layout.config_file"] = lambda eng, st, env, node: [(st, Sym("V", CFILE))]
    eng.ext["os.path.dirname"] = lambda eng, st, a, kw, node: [(st, Sym("V", dirn(eng.toV(a[0]))))]
    eng.ext["json.dump"] = dump_v


jtext = z3.Function("json_text", V, V)


def dump_v(eng, st, a, kw, node):
    """The file gets the JSON text of the value, which loads to the same value."""
    return eng.call(st, Bound(a[1], "write"), [Sym("V", jtext(eng.toV(a[0])))], {}, node)


@task("C13", "layout.Layout.write_layout_params", setup=lay_setup, clause="writes the configuration once, never over one that is there")
def write_params(c):
    eng = c.eng
    st = State()
    fs, S0 = storage(eng, st, "root")
    st.assume_(z3.And(kind(CFG) == KD, kind(CFILE) == KS, kind(jtext(CFG)) == KS))
    me = c.inst(st, "layout", "Layout", {"NAME": Sym("V", LNAME), "DESCRIPTION": Opaque("d"), "PARAMS": None})
    rets, raises = c.run(st, [fs], self_=me)
    there = z3.Or(S0.files[CFILE], S0.dirs[CFILE])
    q = fresh("V", "other")
    for s, e in raises:
        c.prove(s, z3.And(HAVECFG, there), "refused only if there is one already")
        c.prove(s, z3.BoolVal(e.name == "LayoutException" and s.heap[fs.ref.oid].same(S0)), "a refusal leaves the root as it was")
    for s, v in rets:
        c.cover_any(s, "written")
        S = s.heap[fs.ref.oid]
        c.prove(s.assume(z3.Not(HAVECFG)), z3.And(z3.BoolVal(True), S.files[q] == S0.files[q], S.dirs[q] == S0.dirs[q], S.content[q] == S0.content[q]), "without parameters nothing is written")
        c.prove(s.assume(HAVECFG), z3.And(z3.Not(there), S.files[CFILE], S.content[CFILE] == jtext(CFG)), "the configuration is in its file")
        c.prove(s.assume(q != CFILE), z3.And(S.files[q] == S0.files[q], S.content[q] == S0.content[q]), "no other file is changed")


@task("C13", "layout.Layout.read_layout_params", setup=lay_setup, clause="takes the parameters from the configuration that is there")
def read_params(c):
    eng = c.eng
    parse, isjson = z3.Function("json_value", V, V), z3.Function("is_json", V, BoolS)

    def load(eng, st, a, kw, node):
        out = []
        for s, t in eng.call(st, Bound(a[0], "read"), [], {}, node):
            t = eng.toV(t)
            s = eng.raise_if(s, z3.Not(isjson(t)), Exc(ValueError))
            if s is not None:
                out.append((s, Sym("V", parse(t))))
        return out
    eng.ext["json.load"] = load

    def s_set(eng, st, env, node):
        st = st.copy()
        st.ghost["set"] = st.ghost.get("set", ()) + (eng.toV(env["config"]),)
        eng.prove(st, z3.BoolVal(env.get("require_extension_name", True) is True), "the configuration must name the extension", node)
        st = eng.raise_if(st, z3.Not(PARAMS), Exc(cls(eng, "layout", "LayoutException")))
        return [] if st is None else [(st, None)]
    eng.summaries["layout.Layout.check_and_set_layout_params"] = s_set
    for required in (False, True):
        st = State()
        fs, S0 = storage(eng, st, "root")
        st.assume_(kind(CFILE) == KS)
        doc = parse(S0.content[CFILE])
        me = c.inst(st, "layout", "Layout", {"NAME": Sym("V", LNAME), "DESCRIPTION": Opaque("d"), "PARAMS": None})
        rets, raises = c.run(st, [fs], {"params_required": required}, self_=me)
        w = "required" if required else "optional"
        exists = z3.Or(S0.files[CFILE], S0.dirs[CFILE])
        sound = z3.And(S0.files[CFILE], isjson(S0.content[CFILE]), kind(doc) == KD, PARAMS)
        ok = z3.Or(sound, z3.And(z3.Not(exists), z3.BoolVal(not required)))
        for s, e in raises:
            c.prove(s, z3.And(z3.Not(ok), z3.BoolVal(e.name == "LayoutException")), "%s: a sound configuration is not refused" % w)
        for s, v in rets:
            c.cover_any(s, w)
            c.prove(s, ok, "%s: only a sound configuration is accepted" % w)
            g = s.ghost.get("set", ())
            c.prove(s, z3.If(exists, z3.And(z3.BoolVal(len(g) == 1), *[t == doc for t in g]), z3.BoolVal(not g)), "%s: the parameters are those of the configuration" % w)


# ---- parse_inventory, id_from_inventory ----
VALID, VSPEC, VALG, INVDOC = z3.Const("inventory_valid", BoolS), z3.Const("version_of_the_inventory", V), z3.Const("algorithm_of_the_inventory", V), z3.Const("inventory_document", V)
READS = z3.Const("inventory_is_json", BoolS)


class InvFs(FsV):
    """The filesystem of an object, of which the root inventory is read."""

    def __init__(self):
        pass

    def __eq__(self, o):
        return isinstance(o, InvFs)

    __hash__ = None

    def same_val(self, o):
        return isinstance(o, InvFs)

    def method(self, eng, st, name, a, kw, node):
        if name != "open":
            raise Unsupported("filesystem method " + name, node)
        eng.prove(st, eng.toV(a[0]) == lit("inventory.json"), "the root inventory is read", node)
        st = eng.raise_if(st, z3.Not(SRCOK), FileNotFoundError)
        return [] if st is None else [(st, eng.alloc(st, InvFile()))]


class InvFile:
    def exit(self, eng, st, r):
        return st

    def same(self, o):
        return isinstance(o, InvFile)

    def havoc(self, eng):
        return self


@task(["C13", "C09", "C07"], "object.Object.parse_inventory", clause="gives what is in the root inventory, only if it is valid, with its digests normalized")
def parse_inventory(c):
    eng = c.eng
    eng.split_returns = True

    def load(eng, st, a, kw, node):
        if not isinstance(a[0], Ref) or not isinstance(st.heap[a[0].oid], InvFile):
            return [(st, Opaque("messages"))]
        st = eng.raise_if(st, z3.Not(READS), Exc(ValueError))
        return [] if st is None else [(st, Sym("V", INVDOC))]

    def s_norm(eng, st, env, node):
        """Contract of normalize_digests (proved for C20)."""
        me = env["self"]
        eng.prove(st, eng.toV(env["digest_algorithm"]) == VALG, "digests are normalized for the algorithm of the inventory", node)
        eng.prove(st, eng.toV(st.heap[me.oid].fields["data"]) == INVDOC, "the digests of the inventory read are normalized", node)
        st = st.copy()
        st.ghost["normalized"] = me.oid
        eng.prove(st, VALID, "only a valid inventory is normalized", node)
        return [(st, None)]
    log_setup(eng)
    eng.ext["json.load"] = load
    eng.summaries["inventory.Inventory.normalize_digests"] = s_norm

    def s_validate(eng, st, env, node):
        """The verdict of the validator is the subject of C01 to C03; it leaves version and digest algorithm of the inventory."""
        eng.prove(st, eng.toV(env["inventory"]) == INVDOC, "what was read is validated", node)
        st = st.copy()
        o = st.heap[env["self"].oid]
        st.heap[env["self"].oid] = Inst(o.cls, dict(o.fields, spec_version=Sym("V", VSPEC), digest_algorithm=Sym("V", VALG)))
        return [(st, Sym("bool", VALID))]
    eng.summaries["inventory_validator.InventoryValidator.validate"] = s_validate
    eng.ext["copy.deepcopy"] = lambda eng, st, a, kw, node: [(st, a[0])]        # the same value
    st = State()
    me = c.inst(st, "object", "Object", {"obj_fs": InvFs(), "spec_version": None, "lax_digests": False})
    st.assume_(z3.And(kind(INVDOC) == KD, INVDOC != V_.noneV, kind(VSPEC) == KS, kind(VALG) == KS))
    rets, raises = c.run(st, [], self_=me)
    for s, e in raises:
        c.prove(s, z3.Not(z3.And(SRCOK, READS, VALID)), "a valid inventory is not refused (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "read")
        c.prove(s, z3.And(SRCOK, READS, VALID), "only a valid inventory is given")
        c.prove(s, z3.BoolVal(s.ghost.get("normalized") == getattr(v, "oid", 0)), "its digests are normalized")
        c.prove(s, eng.toV(s.heap[me.oid].fields["spec_version"]) == VSPEC, "the version is that of the inventory")


@task(["C12", "C13"], "object.Object.id_from_inventory", clause="the id of a readable and valid inventory, else the value for a failure")
def id_from_inventory(c):
    eng = c.eng
    eng.split_returns = True
    why = {e: fresh("bool", "fails_" + e) for e in ("ObjectException", "InventoryException", "FileNotFoundError", "IsADirectoryError", "UnicodeDecodeError", "JSONDecodeError", "RecursionError")}

    def s_parse(eng, st, env, node):
        import json
        for e, b in why.items():
            k = {"ObjectException": lambda: cls(eng, "object_utils", e), "InventoryException": lambda: cls(eng, "inventory", e), "FileNotFoundError": lambda: FileNotFoundError, "IsADirectoryError": lambda: IsADirectoryError,
                 "UnicodeDecodeError": lambda: UnicodeDecodeError, "JSONDecodeError": lambda: json.JSONDecodeError, "RecursionError": lambda: RecursionError}[e]()
            st = eng.raise_if(st, b, Exc(k))
            if st is None:
                return []
        return [(st, Inventory())]
    eng.summaries["object.Object.parse_inventory"] = s_parse
    for given in (False, True):
        st = State()
        other = Sym("V", fresh("V", "failure_value")) if given else "UNKNOWN-ID"
        me = c.inst(st, "object", "Object", {"obj_fs": InvFs()})
        rets, raises = c.run(st, [other] if given else [], self_=me)
        for s, e in raises:
            eng.unreachable(s, "no exception (%s)" % e.name)
        for s, v in rets:
            c.cover_any(s, "given" if given else "default")
            c.prove(s, eng.toV(v) == z3.If(z3.Or(*why.values()), eng.toV(other), ID), "the id, or the value for a failure")


@task(["C12", "C13"], R + "layout", clause="the handler of the layout named, made once")
def layout_property(c):
    eng = c.eng
    eng.split_returns = True
    made = NewLayout()

    def s_get(eng, st, env, node):
        eng.prove(st, eng.toV(env["name"]) == LNAME, "the layout named is looked up", node)
        return [(st, made)]
    eng.summaries["layout_registry.get_layout"] = s_get
    for kept in (False, True):
        for named in (False, True):
            st = State()
            st.assume_(z3.And(kind(LNAME) == KS, LNAME != V_.noneV, LNAME != lit("")))
            old = LayoutV()
            me = root(c, st, _layout=old if kept else None, layout_name=Sym("V", LNAME) if named else None)
            rets, raises = c.run(st, [], self_=me)
            for s, e in raises:
                eng.unreachable(s, "no exception (%s)" % e.name)
            for s, v in rets:
                c.cover_any(s, "%s %s" % (kept, named))
                want = old if kept else made if named else None
                c.prove(s, z3.BoolVal(v is want), "the handler kept, else that of the layout named, else none")
                c.prove(s, z3.BoolVal(s.heap[me.oid].fields["_layout"] is want), "it is kept")
