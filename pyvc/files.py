"""Byte strings, files being read or written, hash objects: what the library contracts say about them."""
import z3

from . import values as V_
from .values import V, Sym, Opaque, Bound, Exc, Ref, Unsupported, fresh, lit, IntS, StrS, kind, KS

slen = z3.Function("slen", V, IntS)                 # length of a text or byte string
b_pre = z3.Function("b_pre", V, IntS, V)            # first n bytes
b_sub = z3.Function("b_sub", V, IntS, IntS, V)      # bytes p..q-1
b_cat = z3.Function("b_cat", V, V, V)
hexd = z3.Function("hexdigest", V, V, StrS)         # (algorithm, content)
utf8 = z3.Function("utf8", StrS, V)
HEXLEN = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32, "blake2b:64": 128, "blake2b:48": 96, "blake2b:32": 64, "blake2b:20": 40}


class FileObj:
    """An open file: content is what the file held when opened (reading), pos the position, written what was written so far."""
    __slots__ = ("mode", "content", "pos", "written", "path")

    def __init__(self, mode, content, pos, written, path=None):
        self.mode, self.content, self.pos, self.written, self.path = mode, content, pos, written, path

    def same(self, o):
        return all((getattr(self, f) is None) == (getattr(o, f) is None) and (getattr(self, f) is None or getattr(self, f).eq(getattr(o, f)))
                   for f in ("content", "pos", "written"))

    def havoc(self, eng):
        return FileObj(self.mode, self.content, fresh("int", "pos") if self.pos is not None else None,
                       fresh("V", "written") if self.written is not None else None, self.path)

    def method(self, eng, st, r, name, a, kw, node):
        if name == "read":
            if self.content is None:
                raise Unsupported("read on a file opened for writing", node)
            st = st.copy()
            c, p = self.content, self.pos
            n = None
            if a and a[0] is not None:
                n = eng.toint(a[0])
            L = slen(c)
            q = L if n is None else z3.If(n < 0, L, z3.If(p + n <= L, p + n, L))
            qv = fresh("int", "pos")
            st.fact_(qv == q)
            x = b_sub(c, p, qv)
            st.fact_(z3.And(slen(c) >= 0, kind(x) == KS, z3.Implies(z3.And(0 <= p, p <= qv), slen(x) == qv - p), (slen(x) == 0) == (x == lit("")),
                            z3.Implies(z3.And(0 <= p, p <= qv), b_cat(b_pre(c, p), x) == b_pre(c, qv)),
                            b_cat(lit(""), x) == x, b_pre(c, L) == c, b_pre(c, z3.IntVal(0)) == lit(""), slen(lit("")) == 0))
            st.heap[r.oid] = FileObj(self.mode, c, qv, self.written, self.path)
            return [(st, Sym("V", x))]
        if name == "write":
            if self.written is None:
                raise Unsupported("write on a file opened for reading", node)
            st = st.copy()
            x = eng.toV(a[0])
            w = self.written
            st.fact_(b_cat(lit(""), x) == x)
            st.heap[r.oid] = FileObj(self.mode, self.content, self.pos, b_cat(w, x), self.path)
            return [(st, Opaque("written"))]
        if name == "close":
            return [(st, None)]
        raise Unsupported("file method " + name, node)


class HashObj:
    __slots__ = ("alg", "fed")

    def __init__(self, alg, fed):
        self.alg, self.fed = alg, fed

    def same(self, o):
        return self.alg == o.alg and self.fed.eq(o.fed)

    def havoc(self, eng):
        return HashObj(self.alg, fresh("V", "fed"))

    def method(self, eng, st, r, name, a, kw, node):
        if name == "update":
            st = st.copy()
            x = bytes_of(eng, a[0])
            st.fact_(b_cat(lit(""), x) == x)
            st.heap[r.oid] = HashObj(self.alg, b_cat(self.fed, x))
            return [(st, None)]
        if name == "hexdigest":
            st = st.copy()
            t = hexd(lit("alg:" + self.alg), self.fed)
            n = HEXLEN.get(self.alg)
            if n:
                st.fact_(z3.Length(t) == n)
            return [(st, Sym("str", t) if eng.native else Sym("V", z3.Function("boxs", StrS, V)(t)))]
        raise Unsupported("hash method " + name, node)


def bytes_of(eng, x):
    if hasattr(x, "bytes_term"):
        return x.bytes_term(eng)
    return eng.toV(x)


def new_hash(alg):
    def f(eng, st, a, kw, node):
        name = alg
        if alg == "blake2b":
            n = kw.get("digest_size", 64)
            if not isinstance(n, int):
                raise Unsupported("symbolic digest size", node)
            name = "blake2b:%d" % n
        elif kw and set(kw) - {"usedforsecurity"}:
            raise Unsupported("hash options", node)
        st = st.copy()
        fed = lit("")
        if a:
            x = bytes_of(eng, a[0])
            st.fact_(b_cat(lit(""), x) == x)
            fed = b_cat(fed, x)
        return [(st, eng.alloc(st, HashObj(name, fed)))]
    return f


class IterCall:
    """iter(callable, sentinel)"""

    def __init__(self, f, sentinel):
        self.f, self.sentinel = f, sentinel


def x_iter(eng, st, a, kw, node):
    if len(a) == 2:
        return [(st, IterCall(a[0], a[1]))]
    return [(st, a[0])]


def install(eng):
    for h in ("sha512", "sha256", "sha1", "md5", "blake2b", "sha384", "sha224", "blake2s", "sha3_512", "sha3_256"):
        eng.ext["hashlib." + h] = new_hash(h)
    eng.ext["builtins.iter"] = x_iter


def open_read(eng, st, content, mode="rb"):
    """A file opened for reading with the given content."""
    st = st.copy()
    return st, eng.alloc(st, FileObj(mode, content, z3.IntVal(0), None))
