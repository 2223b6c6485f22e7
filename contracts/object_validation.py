"""C04: validating an object against its inventories (ocfl/validator.py)."""
import z3

from pyvc import values as V_
from pyvc.builtins_model import View, vconcat
from pyvc.engine import LoopSpec, State, LostAnnotation
from pyvc.task import task
from pyvc.values import (Bound, Sym, Opaque, Exc, Inst, ListObj, AccList, V, fresh, kind, lit, noneV, KS, KD, KL, IntS, BoolS, SetS, EMPTY, Unsupported, has, get, at, jlen)
from contracts.inventory_validator import norm

VD = "validator.Validator."
x, y, z = z3.Consts("x y z", V)
i, j, k = z3.Ints("i j k")
INV = lit("inventory.json")
SLASH = lit("/")
CLEAN = z3.Const("nothing_is_wrong", BoolS)
exists = z3.Function("exists_in_object", V, BoolS)
filedig = z3.Function("digest_of_file", V, V, V)            # path, algorithm -> digest of the bytes (C14)
sidecar = z3.Function("digest_in_sidecar", V, V)            # path -> digest read from it
sidecar_ok = z3.Function("sidecar_is_readable", V, BoolS)
VEX = z3.Function("is_version", V, BoolS)
NV = z3.Const("versions", IntS)
vdir = z3.Function("version_directory", IntS, V)
vidx = z3.Function("version_index", V, IntS)
A = lambda st, vs, b, p: st.fact_(z3.ForAll(vs, b, patterns=[p]))


def toint(t):
    return z3.IntVal(int(t)) if isinstance(t, (int, bool)) else t.t


def setup(eng):
    """Reporting is the subject of C17: an error counts one, a warning none."""
    eng.ext["json.load"] = lambda eng, st, a, kw, node: [(st, Opaque("messages"))]

    def s_error(eng, st, env, node):
        return more(st, env["self"], z3.IntVal(1))
    eng.summaries["validation_logger.ValidationLogger.error"] = s_error
    eng.summaries["validation_logger.ValidationLogger.warning"] = lambda eng, st, env, node: [(st, None)]
    eng.opaque_items = True


def more(st, log, n):
    st = st.copy()
    o = st.heap[log.oid]
    st.heap[log.oid] = Inst(o.cls, dict(o.fields, num_errors=Sym("int", toint(o.fields["num_errors"]) + n)))
    return [(st, None)]


def judged(st, log, ok, value=None):
    """A callee that reports no error exactly if `ok`."""
    n = fresh("int", "reported")
    st = more(st, log, n)[0][0]
    st.fact_(z3.And(n >= 0, (n == 0) == ok))
    return [(st, value)]


def nerr(s, log):
    return toint(s.heap[log.oid].fields["num_errors"])


def place(c, st, **kw):
    log = c.inst(st, "validation_logger", "ValidationLogger", {"num_errors": Sym("int", fresh("int", "errors")), "num_warnings": Opaque("warnings"), "spec_version": Sym("V", fresh("V", "log_version"))})
    e0 = nerr(st, log)
    st.assume_(e0 >= 0)
    fields = {"log": log, "check_digests": True, "lax_digests": Sym("bool", fresh("bool", "lax")), "obj_fs": ObjFs(), "spec_version": Sym("V", SPEC), "digest_algorithm": Sym("V", ALG), "content_directory": Sym("V", CD),
              "content_directory_set": Sym("bool", fresh("bool", "cdset")), "inventory_digest_files": Opaque("sidecars"), "registered_extensions": Anything(), "root_inv_validator": None, "id": None,
              "default_spec_version": Sym("V", fresh("V", "default_version")), "force_spec_version": None}
    st.assume_(z3.And(kind(SPEC) == KS, kind(ALG) == KS, kind(CD) == KS))
    fields.update(kw)
    return c.inst(st, "validator", "Validator", fields), log, e0


SPEC, ALG, CD = z3.Const("spec_version", V), z3.Const("digest_algorithm", V), z3.Const("content_directory", V)


class Anything:
    """A collection of which nothing is known."""

    def contains(self, eng, st, x, node):
        return [(st, fresh("bool", "contained"))]

    def same_val(self, o):
        return isinstance(o, Anything)


class ObjFs:
    """The filesystem of the object: what is there is a matter of fact; only reading is modelled (C19: validation writes nothing)."""

    types = ["fsspec.AbstractFileSystem"]

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def same_val(self, o):
        return isinstance(o, ObjFs)

    def truth(self, eng, st):
        return [(st, True)]

    def method(self, eng, st, name, a, kw, node):
        if name in ("exists", "isfile") and (a or "path" in kw):
            return [(st, Sym("bool", exists(eng.toV(a[0] if a else kw["path"]))))]
        if name == "to_json":
            return [(st, Opaque("description"))]
        raise Unsupported("filesystem method " + name, node)


def verdict(c, s, log, e0, ok, w=""):
    """No error exactly if `ok`."""
    n = nerr(s, log)
    c.prove(s, n >= e0, w + "errors are not taken back")
    c.prove(s.assume(ok), n == e0, w + "nothing is reported when nothing is wrong")
    c.prove(s.assume(n == e0), ok, w + "what is wrong is reported")


def no_raise(c, raises):
    for s, e in raises:
        c.eng.unreachable(s, "no exception (%s)" % e.name)


# ---- extensions directory and object root ----
NENT = z3.Const("entries", IntS)
ename, efile, edir = z3.Function("entry_name", IntS, V), z3.Function("entry_is_file", IntS, BoolS), z3.Function("entry_is_directory", IntS, BoolS)
EXTOK = z3.Const("extensions_directory_ok", BoolS)


class Entry:
    def __init__(self, k):
        self.k = k

    def same_val(self, o):
        return isinstance(o, Entry) and o.k.eq(self.k)

    def getitem(self, eng, st, a, k, node):
        if k == "name":
            return [(st, Sym("V", ename(self.k)))]
        if k == "type":
            t = fresh("V", "type")
            return [(st.assume(z3.And(kind(t) == KS, (t == lit("directory")) == edir(self.k), (t == lit("file")) == efile(self.k))), Sym("V", t))]
        raise Unsupported("entry[%r]" % (k,), node)


class Entries:
    def view(self, eng, st, node):
        return View(st, NENT, lambda k: Entry(k), pats=lambda k: [ename(k)])


class ListFs(ObjFs):
    def __init__(self, where):
        self.where = where

    def method(self, eng, st, name, a, kw, node):
        if name in ("listdir", "ls"):
            eng.prove(st, z3.Or(*[eng.toV(a[0]) == lit(w) for w in self.where]), "the directory that is listed", node)
            if kw.get("detail", name == "listdir" or None) is not True:
                raise Unsupported("listing without detail", node)
            return [(st, Entries())]
        return super().method(eng, st, name, a, kw, node)


def entries(st):
    st.fact_(NENT >= 0)
    A(st, [k], z3.Implies(z3.And(0 <= k, k < NENT), z3.And(kind(ename(k)) == KS, z3.Not(z3.And(efile(k), edir(k))))), ename(k))


def sofar(st, log, e0, good, n, pat):
    """Loop invariant: no error so far exactly if all so far is good."""
    st.fact_(CLEAN == z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), good(k)), patterns=[pat(k)]))
    st.fact_(z3.Implies(CLEAN, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), good(k)), patterns=[pat(k)])))

    def inv(l):
        m = nerr(l.st, log)
        return [("errors are never taken back", m >= e0), ("nothing reported without cause", z3.Implies(CLEAN, m == e0)),
                ("what is wrong is reported", z3.Implies(m == e0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), good(k)), patterns=[pat(k)])))]
    return inv


@task("C04", VD + "validate_extensions_dir", setup=setup, clause="exactly the entries that are no directories are errors")
def extensions(c):
    st = State()
    entries(st)
    me, log, e0 = place(c, st, obj_fs=ListFs(["extensions"]))
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, sofar(st, log, e0, edir, NENT, ename))]
    rets, raises = c.run(st, [], self_=me)
    no_raise(c, raises)
    for s, _ in rets:
        c.cover_any(s, "checked")
        verdict(c, s, log, e0, CLEAN)


CHK = z3.Function("already_checked", V, BoolS)


class Named:
    """A collection of names, known by its members."""

    def __init__(self, p):
        self.p = p

    def contains(self, eng, st, x, node):
        return [(st, self.p(eng.toV(x)))]

    def same_val(self, o):
        return isinstance(o, Named) and o.p is self.p


class Versions(Named):
    """The version directories, in order."""

    def __init__(self):
        self.p = VEX

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", NV > 0))

    def len_(self, eng, st, node):
        return [(st, Sym("int", NV))]

    def getitem(self, eng, st, a, k, node):
        if k in (0, -1) and isinstance(k, int):
            st = eng.raise_if(st, NV <= 0, IndexError)
            return [(st, Sym("V", vdir(z3.IntVal(0) if k == 0 else NV - 1)))] if st is not None else []
        raise Unsupported("index of the versions", node)

    def view(self, eng, st, node):
        return View(st, NV, lambda k: Sym("V", vdir(k)), pats=lambda k: [vdir(k)], member=VEX)


def versions(st):
    st.fact_(NV >= 0)
    A(st, [k], z3.Implies(z3.And(0 <= k, k < NV), z3.And(VEX(vdir(k)), vidx(vdir(k)) == k, kind(vdir(k)) == KS)), vdir(k))
    A(st, [x], z3.Implies(VEX(x), z3.And(0 <= vidx(x), vidx(x) < NV, vdir(vidx(x)) == x)), VEX(x))


@task("C04", VD + "validate_object_root", setup=setup, clause="exactly the unexpected entries are errors")
def object_root(c):
    st = State()
    entries(st)
    versions(st)
    me, log, e0 = place(c, st, obj_fs=ListFs(["", "/", "."]))
    c.eng.summaries[VD + "validate_extensions_dir"] = lambda eng, st, env, node: judged(st, log, EXTOK)

    def good(k):
        n = ename(k)
        expected = z3.Or(n == vconcat([lit("0=ocfl_object_"), SPEC]), n == INV, n == vconcat([lit("inventory.json."), ALG]), CHK(n))
        return z3.Or(z3.And(efile(k), expected), z3.And(edir(k), z3.Or(VEX(n), n == lit("logs"), z3.And(n == lit("extensions"), EXTOK))))
    st.assume_(z3.Not(VEX(lit("extensions"))))
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, sofar(st, log, e0, good, NENT, ename))]
    rets, raises = c.run(st, [Versions(), Named(CHK)], self_=me)
    no_raise(c, raises)
    for s, _ in rets:
        c.cover_any(s, "checked")
        verdict(c, s, log, e0, CLEAN)


# ---- sidecars ----
@task("C04", VD + "validate_inventory_digest", setup=setup, clause="the sidecar has to be there and to match")
def inventory_digest(c):
    st = State()
    me, log, e0 = place(c, st)
    f, g, ok = fresh("V", "inventory"), fresh("V", "algorithm"), fresh("bool", "matches")
    st.assume_(z3.And(kind(f) == KS, kind(g) == KS))
    side = vconcat([f, lit("."), g])

    def s_match(eng, st, env, node):
        eng.prove(st, z3.And(eng.toV(env["inv_file"]) == f, eng.toV(env["inv_digest_file"]) == side), "the inventory and its sidecar", node)
        return judged(st, log, ok)
    c.eng.summaries[VD + "validate_inventory_digest_match"] = s_match
    rets, raises = c.run(st, [Sym("V", f), Sym("V", g)], {"where": Sym("V", fresh("V", "where"))}, self_=me)
    no_raise(c, raises)
    for s, _ in rets:
        c.cover_any(s, "checked")
        verdict(c, s, log, e0, z3.And(exists(side), ok))


ALGS = ("sha512", "sha256", "sha1", "md5", "blake2b-512", "blake2b-384", "blake2b-256", "blake2b-160")


@task("C04", VD + "validate_inventory_digest_match", setup=setup, native=True, clause="the digest in the sidecar has to be that of the inventory; not compared when digests are not checked")
def digest_match(c):
    eng = c.eng
    eng.opaque_items = True
    S_fd = z3.Function("S_digest_of_file", z3.StringSort(), z3.StringSort(), z3.StringSort())
    S_nm = z3.Function("S_normal_form", z3.StringSort(), z3.StringSort(), z3.StringSort())
    S_side = z3.Function("S_digest_in_sidecar", z3.StringSort(), z3.StringSort())
    S_ok = z3.Function("S_sidecar_is_readable", z3.StringSort(), BoolS)

    def s_read(eng, st, env, node):
        """Contract of read_inventory_digest (proved below)."""
        p = eng.tostr(env["inv_digest_file"])
        st = eng.raise_if(st, z3.Not(S_ok(p)), ValueError)
        return [(st, Sym("str", S_side(p)))] if st is not None else []

    def s_fd(eng, st, env, node):
        if not isinstance(env.get("fs"), ObjFs):
            raise Unsupported("digest of a file elsewhere", node)
        return [(st, Sym("str", S_fd(eng.tostr(env["filename"]), eng.tostr(env["digest_type"]))))]
    eng.summaries[VD + "read_inventory_digest"] = s_read
    eng.summaries["digest.file_digest"] = s_fd
    eng.summaries["digest.normalized_digest"] = lambda eng, st, env, node: [(st, Sym("str", S_nm(eng.tostr(env["digest"]), eng.tostr(env["digest_type"]))))]
    for checked in (True, False):
        for g in ALGS:
            st = State()
            f = fresh("str", "inventory")
            st.assume_(z3.Not(z3.Contains(f, z3.StringVal("\n"))))
            me, log, e0 = place(c, st, check_digests=checked)
            side = z3.Concat(f, z3.StringVal("." + g))
            rets, raises = c.run(st, [Sym("str", f), Sym("str", side)], self_=me)
            no_raise(c, raises)
            for s, _ in rets:
                c.cover_any(s, "compared" if checked else "not compared")
                if checked:
                    verdict(c, s, log, e0, z3.And(S_ok(side), S_fd(f, z3.StringVal(g)) == S_nm(S_side(side), z3.StringVal(g))), g + ": ")
                else:
                    c.prove(s, nerr(s, log) == e0, "nothing is compared")
            if not checked:
                break


class Sidecar:
    """The sidecar, open."""

    def __init__(self, line, status):
        self.line, self.status = line, status

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def enter(self, eng, st, node):
        return [(st, self)]

    def exit(self, eng, st, r):
        return st

    def same(self, o):
        return isinstance(o, Sidecar)

    def havoc(self, eng):
        return self

    def method(self, eng, st, r, name, a, kw, node):
        if name == "readline" and not a:
            st = eng.raise_if(st, self.status == 2, UnicodeDecodeError)
            return [(st, Sym("str", self.line))] if st is not None else []
        raise Unsupported("file method " + name, node)


@task("C04", VD + "read_inventory_digest", setup=setup, native=True, clause="gives the digest of a well-formed sidecar, refuses others")
def read_digest(c):
    from pyvc import rx
    eng = c.eng
    st = State()
    p, line, status = fresh("str", "path"), fresh("str", "line"), fresh("int", "status")
    me, log, e0 = place(c, st)

    def s_open(eng, st, env, node):
        eng.prove(st, eng.tostr(env["filename"] if "filename" in env else env[list(env)[0]]) == p, "the sidecar is read", node)
        st = eng.raise_if(st, status == 1, OSError)
        return [(st, eng.alloc(st, Sidecar(line, status)))] if st is not None else []
    eng.summaries["fsw.fsw_openfile"] = s_open
    rets, raises = c.run(st, [Sym("str", p)], self_=me)
    sv = z3.StringVal
    hexdig = z3.Plus(z3.Union(z3.Range("0", "9"), z3.Range("a", "f"), z3.Range("A", "F")))
    blank = z3.Plus(z3.Union(z3.Re(" "), z3.Re("\t")))
    wf = z3.And(status == 0, z3.InRe(line, z3.Concat(hexdig, blank, z3.Re("inventory.json"), z3.Option(z3.Re("\n")))))
    for s, e in raises:
        c.prove(s, z3.BoolVal(e.name in ("ValueError", "OSError", "UnicodeDecodeError")), "a refusal that the caller handles (%s)" % e.name)
        c.prove(s.assume(wf), z3.BoolVal(False), "a well-formed sidecar is not refused (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "read")
        r = eng.tostr(v)
        c.prove(s, z3.PrefixOf(r, line), "the line starts with what is given")
        c.prove(s.assume(r == sv("")), z3.BoolVal(False), "what is given is not empty")
        c.prove(s.assume(z3.And(wf, z3.Not(z3.InRe(r, hexdig)))), z3.BoolVal(False), "the digest of a well-formed sidecar, nothing shorter or longer")
        c.prove(s.assume(z3.Not(z3.InRe(line, z3.Concat(rx.language(r"\w+\s+", [], "fullmatch"), z3.Re("inventory.json"), rx.language(r"\s*", [], "fullmatch"))))), z3.BoolVal(False), "the line is a digest and the name of the inventory")


# ---- the object ----
def abort(eng):
    return eng.repo.module("validator").classes["ValidatorAbortException"]


class Decl:
    """One of the declarations found."""

    def __init__(self, k):
        self.k = z3.IntVal(k) if isinstance(k, int) else k

    def same_val(self, o):
        return isinstance(o, Decl) and o.k.eq(self.k)

    def getattr(self, eng, st, name, node):
        if name == "filename":
            return [(st, Sym("V", dname(self.k)))]
        return [(st, Bound(self, name))]

    def method(self, eng, st, name, a, kw, node):
        if name == "content_ok":
            eng.prove(st, z3.BoolVal(isinstance(kw.get("fsw", a[0] if a else None), ObjFs)), "the declaration is read in the object", node)
            return [(st, Sym("bool", dok(self.k)))]
        raise Unsupported("method %s of a declaration" % name, node)


class Decls:
    """What find_namastes finds for level 0: at least two."""

    def len_(self, eng, st, node):
        return [(st, Sym("int", NDECL))]

    def truth(self, eng, st):
        return [(st, True)]

    def same_val(self, o):
        return isinstance(o, Decls)

    def view(self, eng, st, node):
        return View(st, NDECL, lambda k: Decl(k), pats=lambda k: [dname(k)])


NDECL = z3.Const("declarations", IntS)
dname, dok = z3.Function("declaration", IntS, V), z3.Function("declaration_content_ok", IntS, BoolS)
OPENS, THERE, PARSES, INVOK, DIGOK, ROOTOK, PRIOROK, CONTOK = [z3.Const(n, BoolS) for n in ("object_opens", "inventory_there", "inventory_parses", "inventory_valid", "sidecar_fits", "root_clean", "prior_inventories_fit", "content_fits")]
IV = {n: z3.Const("inventory_" + n, V) for n in ("id", "content_directory", "digest_algorithm", "spec_version")}
IVSET = z3.Const("inventory_content_directory_set", BoolS)


class InvVal:
    """The validator of the root inventory, after validation."""

    def same_val(self, o):
        return isinstance(o, InvVal)

    def truth(self, eng, st):
        return [(st, True)]

    def getattr(self, eng, st, name, node):
        if name in IV:
            return [(st, Sym("V", IV[name]))]
        if name == "content_directory_set":
            return [(st, Sym("bool", IVSET))]
        if name == "all_versions":
            return [(st, Versions())]
        return [(st, Bound(self, name))]


def decl_setup(eng):
    setup(eng)
    eng.split_returns = True
    eng.split_paths = True


@task("C04", VD + "validate_object", setup=decl_setup, clause="passes exactly the objects of which every part passes")
def whole_object(c):
    eng = c.eng
    names = [lit("0=ocfl_object_" + v) for v in ("1.0", "1.1")]
    for how in ("path", "filesystem"):
        for nd in (0, 1, 2):
            st = State()
            me, log, e0 = place(c, st)
            p = fresh("V", "path")
            st.assume_(z3.And(kind(p) == KS, *[kind(t) == KS for t in IV.values()]))
            A(st, [k], kind(dname(k)) == KS, dname(k))
            st.assume_(NDECL >= 2 if nd == 2 else NDECL == nd)

            def s_openfs(eng, st, env, node):
                eng.prove(st, eng.toV(env[list(env)[0]]) == p, "the object is opened", node)
                st = eng.raise_if(st, z3.Not(OPENS), FileNotFoundError)
                return [(st, ObjFs())] if st is not None else []

            def s_find(eng, st, env, node):
                eng.prove(st, z3.BoolVal(env.get("d") == 0 and isinstance(env.get("fsw"), ObjFs)), "declarations of level 0 in the object", node)
                return [(st, Decls() if nd == 2 else eng.alloc(st, ListObj([Decl(k) for k in range(nd)])))]

            def s_inv(eng, st, env, node):
                eng.prove(st, z3.And(eng.toV(env["inv_file"]) == INV), "the root inventory is validated", node)
                y, n = eng.fork(st, PARSES)
                if n is not None:
                    eng.raise_(more(n, log, z3.IntVal(1))[0][0], Exc(abort(eng)))
                return judged(y, log, INVOK, (Sym("V", DOC), InvVal())) if y is not None else []

            def s_dig(eng, st, env, node):
                eng.prove(st, z3.And(eng.toV(env["inv_file"]) == INV, eng.toV(env["digest_algorithm"]) == IV["digest_algorithm"]), "the sidecar of the root inventory, in its algorithm", node)
                return judged(st, log, DIGOK)

            def s_root(eng, st, env, node):
                f = st.heap[me.oid].fields
                eng.prove(st, z3.And(z3.BoolVal(isinstance(env["version_dirs"], Versions)), eng.toV(f["digest_algorithm"]) == IV["digest_algorithm"]), "the root is compared with the versions and the algorithm of the inventory", node)
                if nd == 1:
                    eng.prove(st.assume(decl1), eng.toV(f["spec_version"]) == ver1(), "and with the version of the declaration", node)
                a = st.heap[env["already_checked"].oid]
                mem = (lambda t: z3.Or(*[eng.toV(q) == t for q in a.items])) if isinstance(a, ListObj) else (lambda t: a.arr[t])
                w, n = fresh("V", "name"), fresh("int", "n")
                eng.prove(st.assume(mem(w)).assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NDECL), dname(k) != w), patterns=[dname(k)])), z3.BoolVal(False), "no file but the declarations is exempt from the check", node)
                eng.prove(st.assume(z3.And(0 <= n, n < NDECL)), mem(dname(n)), "the declarations are exempt from the check of other files", node)
                return judged(st, log, ROOTOK)

            def parts(s):
                f = s.heap[me.oid].fields
                return z3.And(eng.toV(f["content_directory"]) == IV["content_directory"], eng.toV(f["digest_algorithm"]) == IV["digest_algorithm"])

            def s_prior(eng, st, env, node):
                f = st.heap[me.oid].fields
                r = f["root_inv_validator"]
                none = z3.Not(isnt(r, InvVal))
                eng.prove(st, z3.And(z3.BoolVal(isinstance(env["version_dirs"], Versions)), parts(st), eng.toV(f["id"]) == IV["id"]), "the inventories of the versions of the root inventory", node)
                eng.prove(st.assume(nerr(st, log) == e0), z3.Not(none), "compared with the root inventory if that is valid", node)
                return judged(st, log, PRIOROK, (PM, PF))

            def s_content(eng, st, env, node):
                ok = env["prior_manifest_digests"] is PM and env["prior_fixity_digests"] is PF and isinstance(env["version_dirs"], Versions)
                eng.prove(st, z3.And(z3.BoolVal(ok), eng.toV(env["inventory"]) == DOC, parts(st)), "the content is compared with all inventories", node)
                return judged(st, log, CONTOK)
            eng.summaries.update({"fsw.fsw_openfs": s_openfs, "namaste.find_namastes": s_find, VD + "validate_inventory": s_inv, VD + "validate_inventory_digest": s_dig, VD + "validate_object_root": s_root,
                                  VD + "validate_version_inventories": s_prior, VD + "validate_content": s_content})
            one = z3.IntVal(0)
            decl1 = z3.And(z3.Or(*[dname(one) == t for t in names]), dok(one))
            ver1 = lambda: z3.If(dname(one) == names[0], lit("1.0"), lit("1.1"))
            if nd == 2:
                eng.loops[c.t.func] = [LoopSpec(lambda t: True, lambda l: [("errors are never taken back", nerr(l.st, log) >= e0)] + [("%s is a text or None" % n, textual(eng, l.st.env[n])) for n in sorted(l.st.env) if n.endswith("version") and n in l.mods])]
            ok = z3.And(OPENS if how == "path" else z3.BoolVal(True), decl1 if nd == 1 else z3.BoolVal(False), exists(INV), PARSES, INVOK, DIGOK, ROOTOK, PRIOROK, CONTOK)
            rets, raises = c.run(st, [Sym("V", p) if how == "path" else ObjFs()], self_=me)
            no_raise(c, raises)
            w = "%s, %s declarations: " % (how, nd if nd < 2 else "several")
            for s1, v in rets:
                for s, b in eng.truth(s1, v):
                    c.cover_any(s, w + "judged")
                    if b:
                        c.prove(s, ok, w + "only objects of which every part passes pass")
                    else:
                        c.prove(s, z3.Not(ok), w + "an object of which every part passes passes")


DOC = z3.Const("inventory", V)
PM, PF = Anything(), Anything()


def isnt(v, cls):
    from pyvc.values import Union
    if isinstance(v, Union):
        return z3.Or(*[g for g, a in v.alts if isinstance(a, cls)])
    return z3.BoolVal(isinstance(v, cls))


def textual(eng, v):
    if type(v).__name__ == "Undef":
        return z3.BoolVal(True)
    t = eng.toV(v)
    return z3.Or(t == noneV, kind(t) == KS)


# ---- additional digests of a file ----
AD, FP = z3.Const("additional_digests", V), z3.Const("file_path", V)
key, kidx, nk = V_.key, V_.kidx, V_.nk


def s_file_digest(path):
    def f(eng, st, env, node):
        """Contract of file_digest (proved for C14): a function of the bytes and the algorithm; algorithms of valid inventories are known."""
        if not isinstance(env.get("fs"), ObjFs):
            raise Unsupported("digest of a file elsewhere", node)
        p, a = eng.toV(env["filename"]), eng.toV(env["digest_type"])
        if path is not None:
            eng.prove(st, p == path, "the file that is judged is read", node)
        return [(st.assume(kind(filedig(p, a)) == KS), Sym("V", filedig(p, a)))]
    return f


def s_normalized(eng, st, env, node):
    d, a = eng.toV(env["digest"]), eng.toV(env["digest_type"])
    return [(st.assume(kind(norm(a, d)) == KS), Sym("V", norm(a, d)))]


def digests_fit(ad, p):
    """Every digest recorded for the file in this record is one of its bytes."""
    d = get(ad, p)
    return z3.Implies(has(ad, p), z3.ForAll([x, y], z3.Implies(z3.And(has(d, x), has(get(d, x), y)), filedig(p, x) == norm(x, y)), patterns=[has(get(d, x), y)]))


def record_shape(st, ad):
    st.assume_(kind(ad) == KD)
    A(st, [z], z3.Implies(has(ad, z), z3.And(kind(z) == KS, kind(get(ad, z)) == KD)), get(ad, z))
    A(st, [z, x], z3.Implies(z3.And(has(ad, z), has(get(ad, z), x)), z3.And(kind(x) == KS, kind(get(get(ad, z), x)) == KD)), get(get(ad, z), x))
    d = get(get(ad, z), x)
    A(st, [z, x, y], z3.Implies(z3.And(has(ad, z), has(get(ad, z), x), has(d, y)), z3.And(kind(y) == KS, kind(get(d, y)) == KL)), get(d, y))
    e = at(get(d, y), j)
    A(st, [z, x, y, j], z3.Implies(z3.And(has(ad, z), has(get(ad, z), x), has(d, y), 0 <= j, j < jlen(get(d, y))), kind(e) == KS), e)


@task("C04", VD + "check_additional_digests", setup=setup, clause="every recorded digest of the file is compared with its bytes")
def additional(c):
    eng = c.eng
    st = State()
    me, log, e0 = place(c, st)
    record_shape(st, AD)
    st.assume_(kind(FP) == KS)
    good = digests_fit(AD, FP)
    st.fact_(CLEAN == good)
    st.fact_(z3.Implies(CLEAN, good))
    eng.summaries["digest.file_digest"] = s_file_digest(FP)
    eng.summaries["digest.normalized_digest"] = s_normalized
    known = V_.MapObj(fresh(SetS, "known"), fresh(z3.ArraySort(V, V), "known_digest"))
    kr = eng.alloc(st, known)
    D = get(AD, FP)

    def sound(s):
        o = s.heap[kr.oid]
        return z3.ForAll([x], z3.Implies(o.dom[x], z3.And(o.val[x] == filedig(FP, x), kind(o.val[x]) == KS)), patterns=[o.dom[x]])
    st.assume_(sound(st))

    def common(l):
        m = nerr(l.st, log)
        return [("errors are never taken back", m >= e0), ("nothing reported without cause", z3.Implies(CLEAN, m == e0)), ("known digests are those of the file", sound(l.st))]

    def before(m, n):
        a = key(D, k)
        return z3.Implies(m == e0, z3.ForAll([k, y], z3.Implies(z3.And(0 <= k, k < n, has(get(D, a), y)), filedig(FP, a) == norm(a, y)), patterns=[has(get(D, a), y)]))

    def algs(l):
        return common(l) + [("all digests so far fit", before(nerr(l.st, log), l.i))]

    def digs(l):
        m, o = nerr(l.st, log), l.outer[-1]
        a = key(D, o)
        return common(l) + [("all digests of earlier algorithms fit", before(m, o)), ("all digests of this algorithm so far fit", z3.Implies(m == e0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), filedig(FP, a) == norm(a, key(get(D, a), k))), patterns=[key(get(D, a), k)])))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, algs, depth=0), LoopSpec(lambda t: True, digs, depth=1)]
    rets, raises = c.run(st, [Sym("V", FP), kr, Sym("V", AD), Sym("V", fresh("V", "code"))], self_=me)
    no_raise(c, raises)
    for s, _ in rets:
        c.cover_any(s, "checked")
        verdict(c, s, log, e0, good)
        c.prove(s, sound(s), "known digests are those of the file")


# ---- one inventory ----
JOK, FOUND = z3.Const("inventory_is_json", BoolS), z3.Const("inventory_file_there", BoolS)


class InvFile:
    """An inventory, open."""

    def exit(self, eng, st, r):
        return st

    def same(self, o):
        return isinstance(o, InvFile)

    def havoc(self, eng):
        return self


class InvFs(ObjFs):
    def __init__(self, p):
        self.p = p

    def method(self, eng, st, name, a, kw, node):
        if name == "open":
            eng.prove(st, eng.toV(a[0]) == self.p, "the inventory is read", node)
            st = eng.raise_if(st, z3.Not(FOUND), FileNotFoundError)
            return [(st, eng.alloc(st, InvFile()))] if st is not None else []
        return super().method(eng, st, name, a, kw, node)


@task("C04", VD + "validate_inventory", setup=setup, clause="reads and validates the inventory; one that cannot be read aborts with an error")
def one_inventory(c):
    eng = c.eng
    st = State()
    p = fresh("V", "inventory_file")
    me, log, e0 = place(c, st, obj_fs=InvFs(p))
    made = []

    def load(eng, st, a, kw, node):
        st = eng.raise_if(st, z3.Not(JOK), ValueError)
        return [(st, Sym("V", DOC))] if st is not None else []
    eng.ext["json.load"] = load

    class Made:
        def same_val(self, o):
            return isinstance(o, Made)

        def truth(self, eng, st):
            return [(st, True)]

        def getattr(self, eng, st, name, node):
            return [(st, Bound(self, name))]

        def method(self, eng, st, name, a, kw, node):
            if name == "validate":
                eng.prove(st, eng.toV(a[0] if a else kw["inventory"]) == DOC, "what was read is validated", node)
                return judged(st, log, INVOK, Sym("bool", INVOK))
            raise Unsupported("method %s" % name, node)

    def s_new(eng, st, env, node):
        kw = env["kwargs"]
        f = st.heap[me.oid].fields
        eng.prove(st, z3.And(z3.BoolVal(kw.get("log") == log), eng.toV(kw["lax_digests"]) == eng.toV(f["lax_digests"])), "errors go to the log; digests are judged as asked", node)
        return [(st, Made())]
    eng.summaries["inventory_validator.InventoryValidator"] = s_new
    rets, raises = c.run(st, [Sym("V", p)], {"where": Sym("V", fresh("V", "where"))}, self_=me)
    for s, e in raises:
        c.prove(s, z3.And(z3.BoolVal(e.name == "ValidatorAbortException"), z3.Not(z3.And(FOUND, JOK)), nerr(s, log) > e0), "only an inventory that cannot be read aborts, with an error (%s)" % e.name)
    for s, v in rets:
        c.cover_any(s, "validated")
        c.prove(s, z3.And(FOUND, JOK), "the inventory could be read")
        verdict(c, s, log, e0, INVOK)
        ok = isinstance(v, tuple) and len(v) == 2
        c.prove(s, z3.And(eng.toV(v[0]) == DOC, z3.BoolVal(isinstance(v[1], Made))) if ok else z3.BoolVal(False), "gives the inventory and its validator")
