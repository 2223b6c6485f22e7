"""C14: digests (ocfl/digest.py)."""
import z3

from pyvc import files, rx, reg, values as V_
from pyvc.engine import State, LoopSpec
from pyvc.files import FileObj, HashObj, b_pre, b_cat, hexd, slen, HEXLEN, utf8
from pyvc.task import task
from pyvc.values import Sym, Opaque, fresh, lit, V, StrS, kind, KS

FILE_ALGS = {"sha512": "sha512", "sha256": "sha256", "sha1": "sha1", "md5": "md5", "blake2b-512": "blake2b:64",
             "blake2b-384": "blake2b:48", "blake2b-256": "blake2b:32", "blake2b-160": "blake2b:20"}
STR_ALGS = ("sha512", "sha256", "sha1", "md5")
SPEC_EX = {"sha512-spec-ex": ("sha512", 15), "sha256-spec-ex": ("sha256", 6)}
HEX = z3.Union(z3.Range("0", "9"), z3.Range("a", "f"), z3.Range("A", "F"))


def hexn(n):
    return z3.Loop(HEX, n, n)


def expected(t, content, algs, spec_ex=True):
    """[(condition on the algorithm name, expected digest text)]"""
    out = []
    for a in algs:
        out.append((t == z3.StringVal(a), hexd(lit("alg:" + FILE_ALGS[a]), content)))
    if spec_ex:
        for a, (h, n) in SPEC_EX.items():
            d = hexd(lit("alg:" + h), content)
            out.append((t == z3.StringVal(a), z3.Concat(z3.SubString(d, 0, n), z3.StringVal("..."), z3.SubString(d, HEXLEN[h] - 3, 3))))
    return out


def supported(t, algs, spec_ex=True):
    return z3.Or(*[t == z3.StringVal(a) for a in list(algs) + (list(SPEC_EX) if spec_ex else [])])


def read_contract(content):
    """fsw_openfile(name, "rb", fs) gives a file object at the start of the file's content (contract of fsw_openfile, see C16)."""
    def f(eng, st, env, node):
        mode = env.get("mode")
        if mode != "rb":
            eng.unreachable(st, "the file is opened for reading bytes (mode %r)" % (mode,), node)
        st = st.copy()
        eng._opened = True
        r = eng.alloc(st, FileObj("rb", content, z3.IntVal(0), None))
        return [(st, r)]
    return f


def whole_content(c):
    """Loop over the chunks of a file: what was fed to the digester is what was read so far."""
    fs = [o for o in c.st.heap.values() if isinstance(o, FileObj)]
    hs = [o for o in c.st.heap.values() if isinstance(o, HashObj)]
    if len(fs) != 1 or len(hs) != 1:
        from pyvc.engine import LostAnnotation
        raise LostAnnotation("one file and one digester expected")
    f, h = fs[0], hs[0]
    return [("position within the file", z3.And(0 <= f.pos, f.pos <= slen(f.content))),
            ("digester fed with what was read", h.fed == b_pre(f.content, f.pos))]


def setup(eng):
    eng.loops["digest._file_digest"] = [LoopSpec(lambda t: True, whole_content)]


@task("C14", "digest.file_digest", native=True, setup=setup)
def file_digest(c):
    content = fresh("V", "content")
    name, t = fresh("str", "filename"), fresh("str", "digest_type")
    st = State()
    st.fact_(z3.And(slen(content) >= 0, slen(lit("")) == 0, b_pre(content, z3.IntVal(0)) == lit(""), b_pre(content, slen(content)) == content,
                    z3.Implies(slen(content) == 0, content == lit(""))))
    c.eng.summaries["fsw.fsw_openfile"] = read_contract(content)
    m = {"digest_type": t}
    rets, raises = c.run(st, [Sym("str", name), Sym("str", t), Opaque("fs")])
    for s, e in raises:
        if e.name != "ValueError":
            c.eng.unreachable(s, "only ValueError is raised (not %s)" % e.name)
        c.prove(s, z3.Not(supported(t, FILE_ALGS)), "refuses only unsupported algorithm names", model_of=m)
    for s, v in rets:
        c.cover(s, "digest returned")
        c.prove(s, supported(t, FILE_ALGS), "unsupported algorithm names are refused", model_of=m)
        r = c.eng.tostr(v)
        for cond, exp in expected(t, content, FILE_ALGS):
            s2 = s.assume(cond)
            if c.eng.feasible(s2):
                c.prove(s2, r == exp, "the digest of the whole content: %s" % cond, model_of=m)


@task("C14", "digest.file_digest", clause="default algorithm sha512", native=True, setup=setup)
def file_digest_default(c):
    content = fresh("V", "content")
    st = State()
    st.fact_(z3.And(slen(content) >= 0, slen(lit("")) == 0, b_pre(content, z3.IntVal(0)) == lit(""), b_pre(content, slen(content)) == content,
                    z3.Implies(slen(content) == 0, content == lit(""))))
    c.eng.summaries["fsw.fsw_openfile"] = read_contract(content)
    rets, raises = c.run(st, [Sym("str", fresh("str", "filename"))])
    for s, e in raises:
        c.eng.unreachable(s, "no exception")
    for s, v in rets:
        c.prove(s, c.eng.tostr(v) == hexd(lit("alg:sha512"), content), "sha512")


@task("C14", "digest.string_digest", native=True)
def string_digest(c):
    txt, t = fresh("str", "txt"), fresh("str", "digest_type")
    m = {"txt": txt, "digest_type": t}
    rets, raises = c.run(State(), [Sym("str", txt), Sym("str", t)])
    for s, e in raises:
        if e.name != "ValueError":
            c.eng.unreachable(s, "only ValueError is raised (not %s)" % e.name)
        c.prove(s, z3.Not(supported(t, STR_ALGS, False)), "refuses only unsupported algorithm names", model_of=m)
    for s, v in rets:
        c.cover(s, "digest returned")
        c.prove(s, supported(t, STR_ALGS, False), "unsupported algorithm names are refused", model_of=m)
        r = c.eng.tostr(v)
        for cond, exp in expected(t, utf8(txt), STR_ALGS, False):
            s2 = s.assume(cond)
            if c.eng.feasible(s2):
                c.prove(s2, r == exp, "the digest of the text in UTF-8: %s" % cond, model_of=m)


@task(["C14", "C01", "C02", "C03"], "digest.digest_regex", native=True)
def regexes(c):
    for a, alg in FILE_ALGS.items():
        rets, raises = c.run(State(), [a])
        c.prove(State(), z3.BoolVal(bool(rets) and not raises), "%s is supported" % a)
        n = HEXLEN[alg]
        for s, v in rets:
            ok = isinstance(v, str)
            if ok:
                L = rx.language(v, (), "fullmatch")
                ok = reg.included(L, hexn(n)) and reg.included(hexn(n), L)
            c.prove(s, z3.BoolVal(bool(ok)), "format of %s is exactly %d hex digits in either case" % (a, n))
    for a in SPEC_EX:
        rets, raises = c.run(State(), [a])
        c.prove(State(), z3.BoolVal(bool(rets) and not raises), "%s is supported" % a)
    t = fresh("str", "digest_type")
    st = State()
    st.assume_(z3.Not(supported(t, FILE_ALGS)))
    rets, raises = c.run(st, [Sym("str", t)])
    for s, v in rets:
        c.eng.unreachable(s, "unsupported algorithm names are refused")
    for s, e in raises:
        c.cover(s, "refused")
        if e.name != "ValueError":
            c.eng.unreachable(s, "only ValueError is raised (not %s)" % e.name)


@task(["C14", "C01", "C02", "C03"], "digest.normalized_digest", native=True)
def normalized(c):
    from pyvc.builtins_model import S_lower
    d, t = fresh("str", "digest"), fresh("str", "digest_type")
    st = State()
    st.assume_(z3.Not(z3.Or(*[t == z3.StringVal(a) for a in SPEC_EX])))
    rets, raises = c.run(st, [Sym("str", d), Sym("str", t)])
    for s, e in raises:
        c.eng.unreachable(s, "no exception")
    for s, v in rets:
        c.cover(s, "normalized")
        c.prove(s, c.eng.tostr(v) == S_lower(d), "full-length digests: the lower-case text", model_of={"digest": d, "digest_type": t})
    rets, raises = c.run(State(), [Sym("str", d)])
    for s, v in rets:
        c.prove(s, c.eng.tostr(v) == S_lower(d), "default algorithm: the lower-case text", model_of={"digest": d})
