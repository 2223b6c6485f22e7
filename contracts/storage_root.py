"""C12: listing and validating a storage root (ocfl/storage_root.py)."""
import z3

from pyvc import values as V_
from pyvc.engine import LoopSpec, State, LostAnnotation
from pyvc.pathmap import newmaps, PList
from pyvc.builtins_model import s_starts, View
from pyvc.task import task
from pyvc.values import (Bound, Sym, Opaque, Ref, Exc, Inst, ListObj, AccList, MapObj, SetObj, DictObj, V, fresh, kind, lit, noneV, KS, IntS, BoolS, SetS, EMPTY, Unsupported)

R = "storage_root.StorageRoot."
names = z3.Function("file_names", V, SetS)              # directory -> names of its files
nameat = z3.Function("file_name_at", V, IntS, V)
nameidx = z3.Function("file_name_index", V, V, IntS)
nfiles = z3.Function("file_count", V, IntS)
subs = z3.Function("directory_names", V, SetS)          # directory -> names of its directories
nsubs = z3.Function("directory_count", V, IntS)
visit = z3.Function("walked", IntS, V)                  # round -> directory
nvisit = z3.Const("rounds", IntS)
round_ = z3.Function("round_of", V, IntS)
ROOT, EXT, ZERO = lit("/"), lit("extensions"), lit("0=")
DECL = [lit("0=ocfl_object_1.0"), lit("0=ocfl_object_1.1")]
lstrip = z3.Function("str_lstrip1", V, V, V)
shown = lambda d: lstrip(d, ROOT)


class Names:
    """The list of the names of the files of a directory."""
    types = ["builtins.list"]

    def __init__(self, d):
        self.d = d

    def same_val(self, o):
        return isinstance(o, Names) and o.d.eq(self.d)

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", nfiles(self.d) > 0))

    def len_(self, eng, st, node):
        return [(st, Sym("int", nfiles(self.d)))]

    def contains(self, eng, st, x, node):
        return [(st, names(self.d)[eng.toV(x)])]

    def view(self, eng, st, node):
        d = self.d
        return View(st, nfiles(d), lambda j: Sym("V", nameat(d, j)), pats=lambda j: [nameat(d, j)], member=lambda y: names(d)[y])


class Walk:
    """What fsw_walk yields (its contract is proved for C16): every directory that was not pruned once, with its directories, of which the
    consumer may take some out, and its files."""

    def __init__(self, ref):
        self.ref = ref

    def view(self, eng, st, node):
        ref = self.ref
        return View(st, nvisit, lambda k: (Sym("V", visit(k)), PList(ref, None, visit(k), None), Names(visit(k))), pats=lambda k: [visit(k)])


def tree_facts(st):
    d, x = z3.Consts("d x", V)
    j, k = z3.Ints("j k")
    A = lambda vs, b, p: st.fact_(z3.ForAll(vs, b, patterns=[p]))
    st.fact_(nvisit >= 0)
    A([k], z3.Implies(z3.And(0 <= k, k < nvisit), z3.And(kind(visit(k)) == KS, round_(visit(k)) == k)), visit(k))
    A([d], nfiles(d) >= 0, nfiles(d))
    A([d, j], z3.Implies(z3.And(0 <= j, j < nfiles(d)), z3.And(names(d)[nameat(d, j)], nameidx(d, nameat(d, j)) == j)), nameat(d, j))
    A([d, x], z3.Implies(names(d)[x], z3.And(kind(x) == KS, 0 <= nameidx(d, x), nameidx(d, x) < nfiles(d), nameat(d, nameidx(d, x)) == x)), names(d)[x])
    A([d, x], z3.Implies(subs(d)[x], kind(x) == KS), subs(d)[x])


def zero(d, x):
    return z3.And(names(d)[x], s_starts(x, ZERO))


def is_object(d):
    """Exactly one declaration file, and it is one of the supported versions."""
    x, y = z3.Consts("x y", V)
    return z3.And(d != ROOT, z3.Exists([x], z3.And(zero(d, x), z3.Or(*[x == t for t in DECL]), z3.ForAll([y], z3.Implies(zero(d, y), y == x)))))


def is_bad(d):
    """Below the root: an empty directory, or one with files that is no object."""
    x = z3.Const("x", V)
    return z3.And(d != ROOT, z3.Or(z3.And(nfiles(d) == 0, z3.Not(z3.Exists([x], subs(d)[x]))), z3.And(nfiles(d) > 0, z3.Not(is_object(d)))))


class Declared:
    """The match of a declaration: its first group is the version."""

    def __init__(self, x):
        self.x = x

    def truth(self, eng, st):
        return [(st, True)]

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def getitem(self, eng, st, a, k, node):
        return self.method(eng, st, "group", (k,), {}, node)

    def method(self, eng, st, name, a, kw, node):
        if name == "group" and a == (1,) or a == [1]:
            return [(st.assume(kind(version_in(self.x)) == KS), Sym("V", version_in(self.x)))]
        if name in ("group", "groups"):
            return [(st, Opaque("group"))]
        raise Unsupported("method %s of a match" % name, node)


matches = z3.Function("matches_declaration", V, BoolS)
version_in = z3.Function("version_in_declaration", V, V)
VERSIONS = ("1.0", "1.1")


def declaration_regex(eng):
    """re.match of a declaration name: the expression in the code is shown, for all texts, to accept the declaration of every supported version and
    to give that version only for it; nothing else of it is used."""
    def match(st):
        def f(eng2, st, a, kw, node):
            x = a[1]
            if isinstance(x, Sym) and x.sort == "V" and isinstance(a[0], str):
                if not eng.recording and getattr(eng, "decl_proved", None) != a[0]:
                    eng.decl_proved = a[0]
                    s0, t = State(), fresh("str", "name")
                    for s, m in eng.B.X.x_re_match(s0, [a[0], Sym("str", t)] + list(a[2:]), kw, node):
                        for w in VERSIONS:
                            good = t == z3.StringVal("0=ocfl_object_" + w)
                            if m is None:
                                eng.prove(s.assume(good), z3.BoolVal(False), "a declaration of version %s is recognized" % w, node)
                                continue
                            for s2, g in eng.call(s, m.getattr(eng, s, "group", node)[0][1], [1], {}, node):
                                g = eng.tostr(g)
                                eng.prove(s2.assume(good), g == z3.StringVal(w), "and gives version %s" % w, node)
                                eng.prove(s2.assume(g == z3.StringVal(w)), good, "version %s is given only by its declaration" % w, node)
                x = x.t
                st = eng.raise_if(st, kind(x) != KS, TypeError)
                if st is None:
                    return []
                st = st.assume(z3.And(*[z3.And(z3.Implies(x == lit("0=ocfl_object_" + w), z3.And(matches(x), version_in(x) == lit(w))), z3.Implies(z3.And(matches(x), version_in(x) == lit(w)), x == lit("0=ocfl_object_" + w)))
                                       for w in VERSIONS]))
                y, n = eng.fork(st, matches(x))
                return ([(y, Declared(x))] if y is not None else []) + ([(n, None)] if n is not None else [])
            return eng.B.X.x_re_match(st, a, kw, node)
        return f
    eng.ext["re.match"] = match(None)


found_p = z3.Function("object_at", V, BoolS)       # definition: is_object
bad_p = z3.Function("defect_at", V, BoolS)         # definition: is_bad
ext_defects = z3.Const("extension_defects", IntS)


def root(c, st, **kw):
    fields = {"root": Opaque("root"), "root_fs": Opaque("root_fs"), "log": None, "num_traversal_errors": Sym("int", fresh("int", "errors")), "spec_version": None, "lax_digests": Sym("bool", fresh("bool", "lax")),
              "num_objects": 0, "good_objects": 0, "errors": None, "layout_name": None, "layout_description": None, "layout_file": "ocfl_layout.json", "_layout": None, "registered_extensions": Opaque("extensions")}
    fields.update(kw)
    return c.inst(st, "storage_root", "StorageRoot", fields)


def nerr(s, me):
    x = s.heap[me.oid].fields["num_traversal_errors"]
    return z3.IntVal(x) if isinstance(x, int) else x.t


def s_traversal_error(eng, st, env, node):
    """Contract of traversal_error (proved below): one more error is counted."""
    st = st.copy()
    me = env["self"]
    o = st.heap[me.oid]
    f = dict(o.fields)
    x = f["num_traversal_errors"]
    f["num_traversal_errors"] = Sym("int", (z3.IntVal(x) if isinstance(x, int) else x.t) + 1)
    st.heap[me.oid] = Inst(o.cls, f)
    return [(st, None)]


def s_extensions(eng, st, env, node):
    st = st.copy()
    me = env["self"]
    o = st.heap[me.oid]
    f = dict(o.fields)
    x = f["num_traversal_errors"]
    f["num_traversal_errors"] = Sym("int", (z3.IntVal(x) if isinstance(x, int) else x.t) + ext_defects)
    st.heap[me.oid] = Inst(o.cls, f)
    return [(st, None)]


@task("C12", R + "object_paths", clause="every object directory once, every defect counted, no descent into objects", timeout=20.0)
def object_paths(c):
    eng = c.eng
    declaration_regex(eng)
    eng.summaries[R + "traversal_error"] = s_traversal_error
    eng.summaries[R + "validate_extensions_dir"] = s_extensions
    st = State()
    tree_facts(st)
    st.assume_(ext_defects >= 0)
    d = z3.Const("d", V)
    ref, S = newmaps(eng, st, "tree")
    st.fact_(z3.ForAll([d], z3.And(S.mdom[d], S.mmem[d] == subs(d)), patterns=[S.mmem[d]]))
    found = eng.alloc(st, SetObj(EMPTY))
    me = root(c, st)
    e0 = nerr(st, me)
    st.assume_(e0 >= 0)

    def s_walk(eng, st, env, node):
        p = eng.toV(env["dir"])
        eng.prove(st, z3.Or(p == ROOT, p == lit("")), "the walk starts at the root", node)
        return [(st, Walk(ref))]
    eng.summaries["fsw.fsw_walk"] = s_walk

    def consumer(e, s, v, node):
        idx = s.ghost.get("loopidx", ())
        if not idx:
            raise LostAnnotation("yield outside the walk")
        dd = visit(idx[0])
        e.prove(s, e.toV(v) == shown(dd), "what is yielded is the path of the directory", node)
        e.prove(s, z3.Not(s.heap[found.oid].arr[dd]), "no object twice", node)
        s = s.copy()
        o = s.heap[found.oid]
        s.heap[found.oid] = SetObj(z3.Store(o.arr, dd, z3.BoolVal(True)), o.births)
        return [s]
    eng.on_yield = consumer
    eng.counting = True
    k, x = z3.Int("k"), z3.Const("x", V)

    def left(mm, dd):
        return z3.If(dd == ROOT, z3.And(z3.Not(mm[dd][EXT]), z3.ForAll([x], z3.Implies(x != EXT, mm[dd][x] == subs(dd)[x]))), z3.If(nfiles(dd) > 0, z3.ForAll([x], z3.Not(mm[dd][x])), mm[dd] == subs(dd)))

    def sofar(l):
        s = l.st
        f, T = s.heap[found.oid].arr, s.heap[ref.oid]
        n = nerr(s, me)
        return [("objects so far", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), f[visit(k)] == found_p(visit(k))), patterns=[visit(k)])),
                ("only objects so far", z3.ForAll([x], z3.Implies(f[x], z3.And(0 <= round_(x), round_(x) < l.i, visit(round_(x)) == x)))),
                ("errors are never taken back", n >= e0),
                ("a defect is counted", z3.Implies(n == e0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), z3.Not(z3.Or(bad_p(visit(k)), z3.And(visit(k) == ROOT, subs(ROOT)[EXT], ext_defects > 0)))), patterns=[visit(k)]))),
                ("only defects are counted", z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), z3.Not(z3.Or(bad_p(visit(k)), z3.And(visit(k) == ROOT, subs(ROOT)[EXT], ext_defects > 0))))), n == e0)),
                ("objects are not descended into, the rest is", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), left(T.mmem, visit(k))), patterns=[visit(k)])),
                ("directories to come", z3.ForAll([k], z3.Implies(z3.And(l.i <= k, k < nvisit), T.mmem[visit(k)] == subs(visit(k))), patterns=[visit(k)])),
                ("all lists", T.mdom == S.mdom)]

    def emptying(l):
        T, T0 = l.st.heap[ref.oid], l.entry.heap[ref.oid]
        cur = visit(l.outer[0])
        return [("other lists are as they were", z3.And(T.mdom == T0.mdom, z3.ForAll([x], z3.Implies(x != cur, T.mmem[x] == T0.mmem[x]), patterns=[T.mmem[x]]))), ("only taken out", z3.ForAll([x], z3.Implies(T.mmem[cur][x], T0.mmem[cur][x])))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, sofar, depth=0), LoopSpec(lambda t: True, emptying, depth=1)]
    st.fact_(z3.ForAll([d], found_p(d) == is_object(d), patterns=[found_p(d)]))
    st.fact_(z3.ForAll([d], bad_p(d) == is_bad(d), patterns=[bad_p(d)]))
    for t in DECL:
        st.fact_(s_starts(t, ZERO))
    rets, raises = c.run(st, [], self_=me)
    for s, e in raises:
        eng.unreachable(s, "no exception (%s)" % e.name)
    dd, kk = fresh("V", "d"), fresh("int", "k")
    for s, _ in rets:
        c.cover_any(s, "listed")
        f, T, n = s.heap[found.oid].arr, s.heap[ref.oid], nerr(s, me)
        here = z3.And(0 <= kk, kk < nvisit)
        c.prove(s.assume(here), f[visit(kk)] == found_p(visit(kk)), "every object directory that is reached, and no other, is yielded")
        c.prove(s.assume(f[dd]), z3.And(0 <= round_(dd), round_(dd) < nvisit, visit(round_(dd)) == dd), "only directories that are reached are yielded")
        c.prove(s.assume(z3.And(here, bad_p(visit(kk)))), n > e0, "every defect counts")
        c.prove(s.assume(z3.And(here, visit(kk) == ROOT, subs(ROOT)[EXT], ext_defects > 0)), n > e0, "defects of the extensions directory count")
        c.prove(s.assume(z3.And(here, visit(kk) != ROOT, nfiles(visit(kk)) > 0)), z3.Not(T.mmem[visit(kk)][dd]), "no descent into a directory with files")
        c.prove(s.assume(z3.And(here, visit(kk) == ROOT)), T.mmem[ROOT][dd] == z3.And(subs(ROOT)[dd], dd != EXT), "all of the root but the extensions is descended into")
        c.prove(s.assume(z3.And(here, visit(kk) != ROOT, nfiles(visit(kk)) == 0)), T.mmem[visit(kk)][dd] == subs(visit(kk))[dd], "directories without files are descended into")
        q = z3.Int("q")
        c.prove(s.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < nvisit), z3.Not(z3.Or(bad_p(visit(q)), z3.And(visit(q) == ROOT, subs(ROOT)[EXT], ext_defects > 0)))), patterns=[visit(q)])), n == e0, "without a defect no error is counted")


# ---- traversal_error ----
@task("C12", R + "traversal_error", clause="counts one error and reports it")
def traversal(c):
    eng = c.eng
    for logged in (False, True):
        st = State()
        log = Logger() if logged else None
        me = root(c, st, log=log)
        e0 = nerr(st, me)
        code = fresh("V", "code")
        eng.ext["logging.error"] = lambda eng, st, a, kw, node: report(st, None)
        rets, raises = c.run(st, [Sym("V", code)], {"path": Sym("V", fresh("V", "path"))}, self_=me)
        for s, e in raises:
            eng.unreachable(s, "no exception (%s)" % e.name)
        for s, _ in rets:
            c.cover_any(s, "counted")
            c.prove(s, nerr(s, me) == e0 + 1, "one more error")
            r = s.ghost.get("reports", ())
            c.prove(s, z3.BoolVal(len(r) == 1), "reported once")
            if logged and len(r) == 1 and r[0] is not None:
                c.prove(s, eng.toV(r[0]) == code, "with its code")


def report(st, code):
    st = st.copy()
    st.ghost["reports"] = st.ghost.get("reports", ()) + (code,)
    return [(st, None)]


class Logger:
    """The validation log of a storage root."""

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def setattr(self, eng, st, name, v, node):
        return [st]

    def truth(self, eng, st):
        return [(st, True)]

    def same_val(self, o):
        return isinstance(o, Logger)

    def method(self, eng, st, name, a, kw, node):
        if name == "error":
            return report(st, a[0] if a else kw.get("code"))
        return [(st, None)]


# ---- check_root_structure ----
class Decl:
    """One of the declarations found."""

    def __init__(self, k):
        self.k = k

    def getattr(self, eng, st, name, node):
        if name == "filename":
            return [(st, Sym("V", DFILE))]
        return [(st, Bound(self, name))]

    def method(self, eng, st, name, a, kw, node):
        if name == "content_ok":
            return [(st, Sym("bool", DOK))]
        raise Unsupported("method %s of a declaration" % name, node)


class Decls:
    """What find_namastes finds for level 0."""

    def len_(self, eng, st, node):
        return [(st, Sym("int", NDECL))]

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", NDECL > 0))

    def getitem(self, eng, st, a, k, node):
        st = eng.raise_if(st, NDECL <= 0, IndexError)
        if not isinstance(k, int) or k not in (0, -1):
            raise Unsupported("index of a declaration", node)
        return [] if st is None else [(st, Decl(0))]

    def same_val(self, o):
        return isinstance(o, Decls)


class RootFs:
    """The filesystem of the root: which files are there is a matter of fact."""

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def same_val(self, o):
        return isinstance(o, RootFs)

    def method(self, eng, st, name, a, kw, node):
        if name in ("exists", "isfile", "lexists"):
            t = eng.toV(a[0])
            eng.prove(st, t == lit("ocfl_layout.json"), "looks for the layout file", node)
            return [(st, Sym("bool", LAYOUT))]
        raise Unsupported("filesystem method " + name, node)


class LayoutV:
    """The handler of a layout."""

    def getattr(self, eng, st, name, node):
        if name == "NAME":
            return [(st, Sym("V", LNAME))]
        return [(st, Bound(self, name))]

    def same_val(self, o):
        return isinstance(o, LayoutV)

    def truth(self, eng, st):
        return [(st, True)]

    def method(self, eng, st, name, a, kw, node):
        if name == "read_layout_params":
            st = eng.raise_if(st, z3.Not(PARAMS), Exc(layout_exception(eng)))
            if st is None:
                return []
            st = st.copy()
            st.ghost["params"] = True
            return [(st, None)]
        raise Unsupported("method %s of a layout" % name, node)


def layout_exception(eng):
    return eng.repo.module("layout").classes["LayoutException"]


def sre(eng):
    return eng.repo.module("storage_root").classes["StorageRootException"]


NDECL, DFILE, DOK = z3.Const("declarations", IntS), z3.Const("declaration", V), z3.Const("declaration_content_ok", BoolS)
LAYOUT, PARSED, SUPPORTED, PARAMS = [z3.Const(n, BoolS) for n in ("layout_file_there", "layout_file_sound", "layout_supported", "layout_parameters_sound")]
LNAME, EXTNAME = z3.Const("layout_canonical_name", V), z3.Const("layout_name_in_file", V)
ROOTDECL = {v: lit("0=ocfl_" + v) for v in VERSIONS}


def sound_root(want):
    """want: the version asked for, None for any."""
    ok = z3.And(NDECL == 1, z3.Or(*[z3.And(DFILE == ROOTDECL[v], z3.BoolVal(True) if want is None else want == lit(v)) for v in VERSIONS]), DOK)
    return z3.And(ok, z3.Implies(LAYOUT, z3.And(PARSED, SUPPORTED)))


@task("C12", R + "check_root_structure", clause="accepts exactly the sound roots")
def check_root(c):
    eng = c.eng
    eng.split_returns = True

    def s_find(eng, st, env, node):
        eng.prove(st, z3.BoolVal(eng.toint(env["d"]).eq(z3.IntVal(0)) if False else env.get("d") == 0), "declarations of level 0", node)
        return [(st, Decls())]

    def s_parse(eng, st, env, node):
        st = eng.raise_if(st, z3.Not(PARSED), Exc(sre(eng)))
        return [] if st is None else [(st, (Sym("V", EXTNAME), Opaque("description")))]

    def s_supported(eng, st, env, node):
        eng.prove(st, eng.toV(env[list(env)[0]]) == EXTNAME, "the layout named in the file", node)
        return [(st, Sym("bool", SUPPORTED))]
    eng.summaries["namaste.find_namastes"] = s_find
    eng.summaries[R + "parse_layout_file"] = s_parse
    eng.summaries["layout_registry.layout_is_supported"] = s_supported
    eng.summaries[R + "layout"] = lambda eng, st, env, node: [(st, LayoutV())]
    for given in (False, True):
        st = State()
        want = fresh("V", "wanted") if given else None
        me = root(c, st, spec_version=Sym("V", want) if given else None, root_fs=RootFs())
        st.assume_(NDECL >= 0)
        if given:
            st.assume_(kind(want) == KS)
        ok = sound_root(want)
        rets, raises = c.run(st, [], self_=me)
        w = "version given" if given else "any version"
        for s, e in raises:
            if e.name == "StorageRootException":
                c.prove(s, z3.Not(ok), "%s: a sound root is not refused" % w)
            else:
                c.prove(s, z3.And(z3.Not(PARAMS), z3.BoolVal(e.name == "LayoutException")), "%s: only bad layout parameters give another exception" % w)
        for s1, r1 in rets:
            for s, b in eng.truth(s1, r1):
                c.cover_any(s, "checked, " + w)
                c.prove(s, z3.And(ok, z3.BoolVal(b), z3.Implies(LAYOUT, PARAMS)), "%s: only a sound root is accepted" % w)
                f = s.heap[me.oid].fields
                c.prove(s, z3.And(*[z3.Implies(DFILE == ROOTDECL[v], eng.toV(f["spec_version"]) == lit(v)) for v in VERSIONS]), "%s: the version is that of the declaration" % w)
                c.prove(s, z3.Implies(LAYOUT, eng.toV(f["layout_name"]) == EXTNAME), "%s: the layout is that of the layout file" % w)


# ---- validate_hierarchy, validate, list_objects ----
NOBJ = z3.Const("objects", IntS)
objat = z3.Function("object_path", IntS, V)
valid_p = z3.Function("object_valid", V, BoolS)            # validate_object on the object at this path (the subject of C01 to C05)
good = z3.Function("valid_objects_before", IntS, IntS)     # how many of the first n objects are valid
TERR = z3.Const("traversal_errors_found", IntS)


class Paths:
    def __init__(self):
        pass

    def view(self, eng, st, node):
        return View(st, NOBJ, lambda k: Sym("V", objat(k)), pats=lambda k: [objat(k)])


def good_facts(st):
    k = z3.Int("k")
    st.fact_(z3.And(good(z3.IntVal(0)) == 0, NOBJ >= 0, TERR >= 0))
    st.fact_(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NOBJ), z3.And(good(k + 1) == good(k) + z3.If(valid_p(objat(k)), 1, 0), kind(objat(k)) == KS)), patterns=[objat(k)]))
    st.fact_(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= NOBJ), z3.And(0 <= good(k), good(k) <= k)), patterns=[good(k)]))


class SubFs:
    def __init__(self, p):
        self.p = p

    def same_val(self, o):
        return isinstance(o, SubFs) and o.p.eq(self.p)


def s_paths(eng, st, env, node):
    """Contract of object_paths (proved above): the paths, the errors counted on the way."""
    st = st.copy()
    me = env["self"]
    o = st.heap[me.oid]
    f = dict(o.fields)
    x = f["num_traversal_errors"]
    f["num_traversal_errors"] = Sym("int", (z3.IntVal(x) if isinstance(x, int) else x.t) + TERR)
    st.heap[me.oid] = Inst(o.cls, f)
    return [(st, Paths())]


def log_setup(eng):
    """The table of messages is data: what it holds does not matter here. Reporting is the subject of C17."""
    eng.ext["json.load"] = lambda eng, st, a, kw, node: [(st, Opaque("messages"))]
    for n in ("error", "warning"):
        eng.summaries["validation_logger.ValidationLogger." + n] = lambda eng, st, env, node: [(st, None)]


def hier_setup(eng):
    log_setup(eng)
    eng.summaries[R + "object_paths"] = s_paths

    def s_opendir(eng, st, env, node):
        eng.prove(st, z3.BoolVal(env.get("fs").__class__.__name__ == "RootFs"), "a directory of the root", node)
        return [(st, SubFs(eng.toV(env["path"])))]
    eng.summaries["fsw.fsw_opendir_as_fs"] = s_opendir

    def s_valobj(eng, st, env, node):
        p = env["path"]
        if not isinstance(p, SubFs):
            raise Unsupported("validation of %r" % (p,), node)
        f = st.heap[env["self"].oid].fields
        for n, t in eng.wanted.items():
            x = f.get(n)
            x = z3.BoolVal(x) if isinstance(x, bool) else x.t if isinstance(x, Sym) else None
            eng.prove(st, z3.BoolVal(False) if x is None else x == t, "objects are validated with %s as asked" % n, node)
        return [(st, Sym("bool", valid_p(p.p)))]
    eng.summaries["validator.Validator.validate_object"] = s_valobj

    def s_status(eng, st, env, node):
        t = fresh("V", "messages")
        return [(st.assume(kind(t) == KS), Sym("V", t))]
    eng.summaries["validator.Validator.status_str"] = s_status


def toint(x):
    return z3.IntVal(int(x)) if isinstance(x, (int, bool)) else x.t


@task("C12", R + "validate_hierarchy", setup=hier_setup, clause="exact counts of objects and of valid objects")
def hierarchy(c):
    eng = c.eng
    eng.opaque_items = True
    for objects in (True, False):
        st = State()
        good_facts(st)
        chk, lax, lw, mx = fresh("bool", "check_digests"), fresh("bool", "lax"), fresh("bool", "log_warnings"), fresh("int", "max_errors")
        me = root(c, st, root_fs=RootFs(), lax_digests=Sym("bool", lax))
        eng.wanted = {"check_digests": chk, "lax_digests": lax}

        def named(l):
            n, g, errs = [l.st.env.get(x) for x in ret_names(c)]
            if not objects:
                return [("as many good objects as objects so far", toint(n) == toint(g)), ("number of messages so far", bounded(l.st, errs, mx))]
            return [("number of objects so far", toint(n) == l.i), ("number of valid objects so far", toint(g) == good(l.i)), ("number of messages so far", bounded(l.st, errs, mx))]
        eng.loops[c.t.func] = [LoopSpec(lambda t: True, named)]
        rets, raises = c.run(st, [], {"validate_objects": objects, "check_digests": Sym("bool", chk), "log_warnings": Sym("bool", lw), "max_errors": Sym("int", mx)}, self_=me)
        w = "objects validated" if objects else "objects not validated"
        for s, e in raises:
            eng.unreachable(s, "%s: no exception (%s)" % (w, e.name))
        for s, v in rets:
            c.cover_any(s, w)
            if not isinstance(v, tuple) or len(v) != 3:
                c.prove(s, z3.BoolVal(False), "three results")
                continue
            c.prove(s, bounded(s, v[2], mx), "%s: no more messages than asked for" % w)
            if objects:
                c.prove(s, toint(v[0]) == NOBJ, "the number of objects")
                c.prove(s, toint(v[1]) == good(NOBJ), "the number of valid objects")
            else:
                c.prove(s, toint(v[0]) == toint(v[1]), "without validation as many good objects as objects")


def bounded(s, errs, mx):
    o = s.heap[errs.oid]
    n = z3.IntVal(len(o.items)) if isinstance(o, ListObj) else o.len
    return z3.Or(n == 0, n <= mx)


def ret_names(c):
    """The names of the results."""
    import ast
    f = c.repo.find(c.t.func)[2]
    rs = [n for n in ast.walk(f) if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple)]
    if len(rs) != 1 or not all(isinstance(e, ast.Name) for e in rs[0].value.elts):
        raise LostAnnotation("one return of a tuple of names expected")
    return [e.id for e in rs[0].value.elts]


NUM, GOOD, CHECKOK = z3.Const("number_of_objects", IntS), z3.Const("number_of_valid_objects", IntS), z3.Const("root_structure_sound", BoolS)


@task("C12", R + "validate", setup=log_setup, clause="True exactly for a sound root without defects whose objects are all valid")
def validate(c):
    eng = c.eng
    eng.split_returns = True
    opened = fresh("bool", "root_there")

    def s_open(eng, st, env, node):
        st = eng.raise_if(st, z3.Not(opened), Exc(sre(eng)))
        return [] if st is None else [(st, None)]

    def s_check(eng, st, env, node):
        st = eng.raise_if(st, z3.Not(CHECKOK), Exc(sre(eng)))
        return [] if st is None else [(st, True)]

    def s_hier(eng, st, env, node):
        f = st.heap[env["self"].oid].fields
        eng.prove(st, z3.BoolVal(env["validate_objects"] is eng.args["validate_objects"]), "objects validated as asked", node)
        eng.prove(st, z3.BoolVal(env["check_digests"] is eng.args["check_digests"]), "digests checked as asked", node)
        out = s_paths(eng, st, env, node)
        return [(out[0][0].assume(z3.And(NUM >= GOOD, GOOD >= 0)), (Sym("int", NUM), Sym("int", GOOD), Opaque("errors")))]
    eng.summaries[R + "open_root_fs"] = s_open
    eng.summaries[R + "check_root_structure"] = s_check
    eng.summaries[R + "validate_hierarchy"] = s_hier
    st = State()
    st.assume_(TERR >= 0)
    me = root(c, st, num_traversal_errors=Sym("int", fresh("int", "errors_of_last_time")))
    eng.args = {"validate_objects": Sym("bool", fresh("bool", "validate_objects")), "check_digests": Sym("bool", fresh("bool", "check_digests"))}
    lw, le = fresh("bool", "log_warnings"), fresh("bool", "log_errors")
    rets, raises = c.run(st, [], dict(eng.args, log_warnings=Sym("bool", lw), log_errors=Sym("bool", le)), self_=me)
    for s, e in raises:
        c.prove(s, z3.Not(opened), "an exception only without a root")
    for s1, r1 in rets:
        for s2, r in eng.split(s1, r1):
            for s, b in eng.truth(s2, r):
                c.cover_any(s, "verdict %s" % b)
                c.prove(s, z3.BoolVal(isinstance(r, bool) or isinstance(r, Sym) and r.sort == "bool"), "the verdict is a bool")
                c.prove(s, z3.BoolVal(b) == z3.And(opened, CHECKOK, TERR == 0, GOOD == NUM), "the verdict")
                if b:
                    f = s.heap[me.oid].fields
                    c.prove(s, z3.And(toint(f["num_objects"]) == NUM, toint(f["good_objects"]) == GOOD), "the counts are kept")


idof = z3.Function("id_of_object", V, V)


@task("C12", R + "list_objects", clause="yields every object once with its id, the count is exact")
def listing(c):
    eng = c.eng
    hier_setup(eng)
    eng.summaries[R + "open_root_fs"] = lambda eng, st, env, node: [(st, None)]
    eng.summaries[R + "check_root_structure"] = lambda eng, st, env, node: [(st, True)]

    def s_id(eng, st, env, node):
        fs = st.heap[env["self"].oid].fields.get("obj_fs")
        if not isinstance(fs, SubFs):
            raise Unsupported("object at %r" % (fs,), node)
        return [(st, Sym("V", idof(fs.p)))]
    eng.summaries["object.Object.id_from_inventory"] = s_id
    st = State()
    good_facts(st)
    seen = eng.alloc(st, SetObj(EMPTY))
    me = root(c, st, root_fs=RootFs(), num_objects=Sym("int", fresh("int", "objects_of_last_time")))

    def consumer(e, s, v, node):
        idx = s.ghost.get("loopidx", ())
        if not idx:
            raise LostAnnotation("yield outside the loop")
        ok = isinstance(v, tuple) and len(v) == 2
        e.prove(s, z3.And(e.toV(v[0]) == objat(idx[0]), e.toV(v[1]) == idof(objat(idx[0]))) if ok else z3.BoolVal(False), "what is yielded is a path with the id found there", node)
        o = s.heap[seen.oid]
        e.prove(s, z3.Not(o.arr[V_.boxi(idx[0])]), "once", node)
        s = s.copy()
        s.heap[seen.oid] = SetObj(z3.Store(o.arr, V_.boxi(idx[0]), z3.BoolVal(True)), o.births)
        return [s]
    eng.on_yield = consumer
    k = z3.Int("k")

    def sofar(l):
        s = l.st
        return [("the count so far", toint(s.heap[me.oid].fields["num_objects"]) == l.i),
                ("yielded so far", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NOBJ), s.heap[seen.oid].arr[V_.boxi(k)] == (k < l.i)), patterns=[V_.boxi(k)]))]
    eng.loops[c.t.func] = [LoopSpec(lambda t: True, sofar)]
    rets, raises = c.run(st, [], self_=me)
    for s, e in raises:
        eng.unreachable(s, "no exception (%s)" % e.name)
    kk = fresh("int", "k")
    for s, _ in rets:
        c.cover_any(s, "listed")
        c.prove(s.assume(z3.And(0 <= kk, kk < NOBJ)), s.heap[seen.oid].arr[V_.boxi(kk)], "every object is yielded")
        c.prove(s, toint(s.heap[me.oid].fields["num_objects"]) == NOBJ, "the count")


# ---- validate_extensions_dir ----
NEXT = z3.Const("extension_entries", IntS)
entname, entdir = z3.Function("extension_entry", IntS, V), z3.Function("extension_entry_is_directory", IntS, BoolS)
stray = z3.Function("stray_entries_before", IntS, IntS)


class Entry:
    def __init__(self, k):
        self.k = k

    def same_val(self, o):
        return isinstance(o, Entry) and o.k.eq(self.k)

    def getitem(self, eng, st, a, k, node):
        if k == "name":
            return [(st, Sym("V", entname(self.k)))]
        if k == "type":
            t = fresh("V", "type")
            return [(st.assume(z3.And(kind(t) == KS, (t == lit("directory")) == entdir(self.k))), Sym("V", t))]
        raise Unsupported("entry[%r]" % (k,), node)


class Entries:
    def view(self, eng, st, node):
        return View(st, NEXT, lambda k: Entry(k), pats=lambda k: [entname(k)])


class ExtFs(RootFs):
    def method(self, eng, st, name, a, kw, node):
        if name in ("listdir", "ls"):
            eng.prove(st, eng.toV(a[0]) == EXT, "the extensions directory is listed", node)
            if name == "listdir" and kw.get("detail", True) is not True:
                raise Unsupported("listing without detail", node)
            return [(st, Entries())]
        return super().method(eng, st, name, a, kw, node)


class Registered:
    def contains(self, eng, st, x, node):
        return [(st, fresh("bool", "registered"))]

    def same_val(self, o):
        return isinstance(o, Registered)


@task("C12", R + "validate_extensions_dir", setup=log_setup, clause="exactly the entries that are no directories are errors")
def extensions(c):
    eng = c.eng
    eng.summaries[R + "traversal_error"] = s_traversal_error
    eng.ext["os.path.relpath"] = lambda eng, st, a, kw, node: [(st, Sym("V", fresh("V", "relative")))]
    eng.ext["logging.warning"] = lambda eng, st, a, kw, node: [(st, None)]
    k = z3.Int("k")
    for logged in (False, True):
        st = State()
        st.fact_(z3.And(NEXT >= 0, stray(z3.IntVal(0)) == 0))
        st.fact_(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NEXT), z3.And(stray(k + 1) == stray(k) + z3.If(entdir(k), 0, 1), kind(entname(k)) == KS)), patterns=[entname(k)]))
        me = root(c, st, root_fs=ExtFs(), log=Logger() if logged else None, registered_extensions=Registered())
        e0 = nerr(st, me)
        eng.loops[c.t.func] = [LoopSpec(lambda t: True, lambda l: [("errors so far", nerr(l.st, me) == e0 + stray(l.i))])]
        rets, raises = c.run(st, [], self_=me)
        for s, e in raises:
            eng.unreachable(s, "no exception (%s)" % e.name)
        for s, _ in rets:
            c.cover_any(s, "checked")
            c.prove(s, nerr(s, me) == e0 + stray(NEXT), "one error for each stray entry")


# ---- parse_layout_file ----
DOC, OPENS, READS = z3.Const("layout_document", V), z3.Const("layout_file_opens", BoolS), z3.Const("layout_file_is_json", BoolS)


class LayoutFile:
    """The layout file, open."""

    def exit(self, eng, st, r):
        return st

    def same(self, o):
        return isinstance(o, LayoutFile)

    def havoc(self, eng):
        return self


class LayoutFs(RootFs):
    def method(self, eng, st, name, a, kw, node):
        if name == "open":
            eng.prove(st, eng.toV(a[0]) == lit("ocfl_layout.json"), "the layout file is read", node)
            st = eng.raise_if(st, z3.Not(OPENS), Exc(OSError))
            return [] if st is None else [(st, eng.alloc(st, LayoutFile()))]
        return super().method(eng, st, name, a, kw, node)


@task("C12", R + "parse_layout_file", clause="accepts exactly the documents that name an extension and describe it")
def layout_file(c):
    eng = c.eng

    def load(eng, st, a, kw, node):
        st = eng.raise_if(st, z3.Not(READS), Exc(ValueError))
        return [] if st is None else [(st, Sym("V", DOC))]
    eng.ext["json.load"] = load
    st = State()
    me = root(c, st, root_fs=LayoutFs())
    ext, desc = lit("extension"), lit("description")
    sound = z3.And(OPENS, READS, kind(DOC) == V_.KD, V_.has(DOC, ext), kind(V_.get(DOC, ext)) == KS, V_.has(DOC, desc), kind(V_.get(DOC, desc)) == KS)
    rets, raises = c.run(st, [], self_=me)
    for s, e in raises:
        c.prove(s, z3.And(z3.BoolVal(e.name == "StorageRootException"), z3.Not(sound)), "a sound layout file is not refused")
    for s, v in rets:
        c.cover_any(s, "parsed")
        c.prove(s, sound, "only a sound layout file is accepted")
        ok = isinstance(v, tuple) and len(v) == 2
        c.prove(s, z3.And(eng.toV(v[0]) == V_.get(DOC, ext), eng.toV(v[1]) == V_.get(DOC, desc)) if ok else z3.BoolVal(False), "gives extension and description")
