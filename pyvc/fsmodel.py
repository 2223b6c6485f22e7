"""A filesystem (fsspec) as a heap object: regular files with their content, directories, and which paths were touched.

Paths are values; os.path.join is an uninterpreted function (os_join2) with the lemmas of `path_axioms`."""
import z3

from . import values as V_
from .values import V, Sym, Opaque, Bound, Exc, Ref, Unsupported, DictObj, ListObj, fresh, lit, SetS, kind, KS
from .files import FileObj, slen, b_pre

ContS = z3.ArraySort(V, V)
TRUE = z3.BoolVal(True)
UTF8 = z3.Function("is_utf8", V, z3.BoolSort())
text_of = z3.Function("text_of", V, V)           # decoded content


class Storage:
    __slots__ = ("files", "dirs", "content", "touched")

    def __init__(self, files, dirs, content, touched):
        self.files, self.dirs, self.content, self.touched = files, dirs, content, touched

    def parts(self):
        return self.files, self.dirs, self.content, self.touched

    def same(self, o):
        return all(a.eq(b) for a, b in zip(self.parts(), o.parts()))

    def havoc(self, eng):
        return Storage(fresh(SetS, "files"), fresh(SetS, "dirs"), fresh(ContS, "content"), fresh(SetS, "touched"))

    def merge(self, eng, g, o):
        return Storage(*[a if a.eq(b) else z3.If(g, a, b) for a, b in zip(self.parts(), o.parts())])

    def with_(self, **kw):
        return Storage(*[kw.get(n, getattr(self, n)) for n in self.__slots__])

    def write(self, p, x):
        return self.with_(files=z3.Store(self.files, p, TRUE), content=z3.Store(self.content, p, x), touched=z3.Store(self.touched, p, TRUE))


class FileOut(FileObj):
    """A file opened for writing on a storage: closing it puts what was written there."""
    __slots__ = ("store",)

    def __init__(self, mode, content, pos, written, path=None, store=None):
        FileObj.__init__(self, mode, content, pos, written, path)
        self.store = store

    def havoc(self, eng):
        return FileOut(self.mode, None, None, fresh("V", "written"), self.path, self.store)

    def exit(self, eng, st, r):
        st = st.copy()
        st.heap[self.store.oid] = st.heap[self.store.oid].write(self.path, self.written)
        return st

    def method(self, eng, st, r, name, a, kw, node):
        if name == "close":
            return [(self.exit(eng, st, r), None)]
        out = FileObj.method(self, eng, st, r, name, a, kw, node)
        for s, v in out:
            o = s.heap[r.oid]
            if not isinstance(o, FileOut):
                s.heap[r.oid] = FileOut(o.mode, o.content, o.pos, o.written, o.path, self.store)
        return out


READ_MODES = ("r", "rb", "rt")
WRITE_MODES = ("w", "wb", "wt")


class FsV:
    """A filesystem value: a storage."""

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, FsV) and o.ref == self.ref

    __hash__ = None

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return [(st, True)]

    def method(self, eng, st, name, a, kw, node):
        S = st.heap[self.ref.oid]
        f = getattr(self, "m_" + name, None)
        if f is None:
            raise Unsupported("filesystem method " + name, node)
        p = eng.toV(a[0]) if a else eng.toV(kw["path"]) if "path" in kw else None
        return f(eng, st, S, p, a, kw, node)

    def exists_t(self, S, p):
        return z3.Or(S.files[p], S.dirs[p])

    def m_exists(self, eng, st, S, p, a, kw, node):
        return [(st, Sym("bool", self.exists_t(S, p)))]

    def m_isfile(self, eng, st, S, p, a, kw, node):
        return [(st, Sym("bool", S.files[p]))]

    def m_isdir(self, eng, st, S, p, a, kw, node):
        return [(st, Sym("bool", S.dirs[p]))]

    def m_info(self, eng, st, S, p, a, kw, node):
        st = eng.raise_if(st, z3.Not(self.exists_t(S, p)), FileNotFoundError)
        if st is None:
            return []
        st = st.copy()
        size, typ = fresh("int", "size"), fresh("V", "type")
        st.fact_(z3.And(z3.Implies(S.files[p], z3.And(size == slen(S.content[p]), typ == lit("file"))), z3.Implies(S.dirs[p], typ == lit("directory")), kind(typ) == KS))
        return [(st, eng.alloc(st, DictObj({"size": Sym("int", size), "type": Sym("V", typ), "name": Opaque("name")})))]

    m_stat = m_info

    def m_size(self, eng, st, S, p, a, kw, node):
        st = eng.raise_if(st, z3.Not(self.exists_t(S, p)), FileNotFoundError)
        return [(st, Sym("int", slen(S.content[p])))] if st is not None else []

    def m_open(self, eng, st, S, p, a, kw, node):
        mode = a[1] if len(a) > 1 else kw.get("mode", "rb")
        if mode in READ_MODES:
            d, st = eng.fork(st, S.dirs[p]) if eng.feasible(st, S.dirs[p]) else (None, st)
            if d is not None:
                eng.raise_(d, Exc(IsADirectoryError))
            if st is None:
                return []
            st = eng.raise_if(st, z3.Not(S.files[p]), FileNotFoundError)
            if st is None:
                return []
            st = st.copy()
            c = S.content[p]
            st.fact_(z3.And(slen(c) >= 0, b_pre(c, slen(c)) == c, b_pre(c, z3.IntVal(0)) == lit(""), slen(lit("")) == 0, z3.Implies(slen(c) == 0, c == lit(""))))
            return [(st, eng.alloc(st, FileObj(mode, c, z3.IntVal(0), None, p)))]
        if mode in WRITE_MODES:
            st = st.copy()
            st.heap[self.ref.oid] = S.with_(touched=z3.Store(S.touched, p, TRUE))
            return [(st, eng.alloc(st, FileOut(mode, None, None, lit(""), p, self.ref)))]
        raise Unsupported("open mode %r" % (mode,), node)

    def m_write_text(self, eng, st, S, p, a, kw, node):
        st = st.copy()
        st.heap[self.ref.oid] = S.write(p, eng.toV(a[1]))
        return [(st, None)]

    m_pipe_file = m_write_text

    def m_makedirs(self, eng, st, S, p, a, kw, node):
        st = st.copy()
        d, x = fresh(SetS, "dirs"), z3.Const("x", V)
        st.fact_(z3.And(d[p], z3.ForAll([x], z3.And(z3.Implies(S.dirs[x], d[x]), z3.Implies(d[x], z3.Not(S.files[x]))), patterns=[d[x]])))
        st.heap[self.ref.oid] = S.with_(dirs=d, touched=z3.Store(S.touched, p, TRUE))
        return [(st, None)]

    m_makedir = m_mkdir = m_mkdirs = m_makedirs


def storage(eng, st, name="fs", touched=None):
    """An arbitrary filesystem: (value, storage object)."""
    x = z3.Const("x", V)
    S = Storage(fresh(SetS, name + "_files"), fresh(SetS, name + "_dirs"), fresh(ContS, name + "_content"), z3.K(V, z3.BoolVal(False)) if touched is None else touched)
    st.fact_(z3.ForAll([x], z3.Not(z3.And(S.files[x], S.dirs[x])), patterns=[S.files[x], S.dirs[x]]))
    st.fact_(z3.ForAll([x], slen(S.content[x]) >= 0, patterns=[S.content[x]]))
    r = eng.alloc(st, S)
    return FsV(r), S
