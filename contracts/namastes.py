"""C18: Namaste declarations (ocfl/namaste.py)."""
import z3

from pyvc import rx
from pyvc.engine import State
from pyvc.files import FileObj
from pyvc.task import task
from pyvc.values import Sym, Bound, Exc, Unsupported, Ref, Func, fresh, StrS, S_strip0, S_dec

s_ = z3.StringVal
SUB = rx.sub_function(r"[^\w.\-:]", "_")


def tv(c):
    """The tvalue of a content: blanks trimmed, at most 40 characters, each unsafe character replaced by an underscore."""
    x = S_strip0(c)
    n = z3.Length(x)
    return SUB(z3.SubString(x, 0, z3.If(n < 40, n, z3.IntVal(40))))


S_tv = z3.Function("S_tv", StrS, StrS)


@task("C18", "namaste.content_to_tvalue", native=True)
def tvalue(c):
    x = fresh("str", "content")
    st = State()
    rets, raises = c.run(st, [Sym("str", x)])
    m = {"content": x}
    for s, e in raises:
        c.eng.unreachable(s, "no exception")
    for s, v in rets:
        c.cover(s, "returns")
        r = c.eng.tostr(v)
        c.prove(s, r == tv(x), "trimmed, cut to 40 characters, unsafe characters replaced", model_of=m)
        c.prove(s, z3.Length(r) <= 40, "at most 40 characters", model_of=m)
        c.prove(s, z3.Not(z3.Contains(r, s_("/"))), "no path separator", model_of=m)
    rets2, _ = c.run(State(), [Sym("str", z3.Concat(x, s_("\n")))])
    for s, v in rets2:
        c.prove(s, c.eng.tostr(v) == tv(x), "the newline that write() adds does not matter", model_of=m)


class FsStub:
    """A filesystem object: records the texts written; reading gives one arbitrary text, or fails."""

    def __init__(self, log, text=None, status=None):
        self.log, self.text, self.status = log, text, status

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return [(st, True)]

    def method(self, eng, st, name, a, kw, node):
        if name in ("write_text", "pipe_file") and name == "write_text":
            st = st.copy()
            self.log.append((st, eng.tostr(a[0]), eng.tostr(a[1])))
            st.ghost["written"] = st.ghost.get("written", ()) + ((eng.tostr(a[0]), eng.tostr(a[1])),)
            return [(st, None)]
        if name == "read_text" and self.text is not None:
            return readings(eng, st, eng.tostr(a[0]), self.text, self.status)
        raise Unsupported("filesystem method " + name, node)


def readings(eng, st, path, text, status, missing=True):
    """status: 0 readable, 1 missing, 2 a directory, 3 not UTF-8"""
    st = st.copy()
    st.ghost["read"] = st.ghost.get("read", ()) + (path,)
    out = []
    for k, e in ((1, FileNotFoundError), (2, IsADirectoryError), (3, UnicodeDecodeError)):
        s = st.assume(status == k)
        if eng.feasible(s):
            eng.raise_(s, Exc(e))
    s = st.assume(status == 0)
    return [(s, Sym("str", text))] if eng.feasible(s) else []


def namaste(c, st, content, tvalue):
    mod = c.repo.module("namaste")
    f = c.repo.find("namaste.content_to_tvalue")
    return c.inst(st, "namaste", "Namaste", {"d": 0, "content": Sym("str", content) if content is not None else "",
                                             "_tvalue": Sym("str", tvalue) if tvalue is not None else None,
                                             "_tr_func": Func(f[0], f[1], f[2])})


def tv_contract(c):
    def f(eng, st, env, node):
        x = eng.tostr(env["content"])
        t = S_tv(x)
        st = st.copy()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT and x.children()[-1].eq(s_("\n")):
            rest = x.children()[:-1]
            st.fact_(t == S_tv(z3.Concat(*rest) if len(rest) > 1 else rest[0]))       # proved above
        st.fact_(z3.Not(z3.Contains(t, s_("/"))))                                     # proved above
        return [(st, Sym("str", t))]
    c.eng.summaries["namaste.content_to_tvalue"] = f


def joined(c, st, d, name):
    return c.eng.B.X.x_os_path_join(st, [Sym("str", d), Sym("str", name)], {}, None)


@task("C18", "namaste.Namaste.write", clause="writes exactly the content and a newline under the name", native=True)
def write(c):
    tv_contract(c)
    for fsw in (True, False):
        for explicit in (False, True):
            st = State()
            content, d, t = fresh("str", "content"), fresh("str", "dir"), fresh("str", "tvalue")
            n = namaste(c, st, content, t if explicit else None)
            log = []

            def op(eng, st, a, kw, node):
                mode = a[1] if len(a) > 1 else kw.get("mode")
                if mode not in ("w", "wt"):
                    raise Unsupported("open mode %r" % (mode,))
                enc = kw.get("encoding")
                eng.prove(st, z3.BoolVal(isinstance(enc, str) and enc.lower().replace("-", "") == "utf8" and not kw.get("newline")), "written as UTF-8", node)
                st = st.copy()
                return [(st, OpenText(eng.tostr(a[0]), log))]
            c.eng.ext["builtins.open"] = op
            rets, raises = c.run(st, [], {"dir": Sym("str", d), "fsw": FsStub(log) if fsw else None}, self_=n)
            what = "%s, %s" % ("filesystem object" if fsw else "local file", "given tvalue" if explicit else "tvalue from content")
            name = z3.Concat(s_("0="), t if explicit else S_tv(content))
            for s, e in raises:
                c.eng.unreachable(s, "%s: no exception" % what)
            for s, v in rets:
                c.cover(s, what)
                w = s.ghost.get("written", ())
                c.prove(s, z3.BoolVal(len(w) == 1), "%s: writes one file" % what)
                if len(w) != 1:
                    continue
                for s2, p in joined(c, s, d, name):
                    c.prove(s2, w[0][0] == c.eng.tostr(p), "%s: under its name in the directory" % what)
                c.prove(s, w[0][1] == z3.Concat(content, s_("\n")), "%s: the content and a newline" % what)


class OpenText:
    """An open text file."""

    def __init__(self, path, log, text=None, status=None):
        self.path, self.log, self.text, self.status = path, log, text, status

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def method(self, eng, st, name, a, kw, node):
        if name == "write" and self.text is None:
            st = st.copy()
            st.ghost["written"] = st.ghost.get("written", ()) + ((self.path, eng.tostr(a[0])),)
            return [(st, None)]
        if name == "read" and self.text is not None and not a:
            return readings(eng, st, self.path, self.text, self.status)
        if name == "close":
            return [(st, None)]
        raise Unsupported("file method " + name, node)


@task("C18", "namaste.Namaste.content_ok", clause="True exactly for a readable file whose content gives the tvalue", native=True)
def content_ok(c):
    tv_contract(c)
    for fsw in (True, False):
        for explicit in (False, True):
            st = State()
            content, d, t, text = fresh("str", "content"), fresh("str", "dir"), fresh("str", "tvalue"), fresh("str", "text")
            status = fresh("int", "status")
            st.assume_(z3.And(status >= 0, status <= 3))
            n = namaste(c, st, content, t if explicit else None)

            def op(eng, st, a, kw, node):
                mode = a[1] if len(a) > 1 else kw.get("mode", "r")
                enc = kw.get("encoding")
                if mode not in ("r", "rt"):
                    raise Unsupported("open mode %r" % (mode,))
                eng.prove(st, z3.BoolVal(isinstance(enc, str) and enc.lower().replace("-", "") == "utf8" and not kw.get("errors")), "read as UTF-8", node)
                for k, e in ((1, FileNotFoundError), (2, IsADirectoryError)):
                    s = st.assume(status == k)
                    if eng.feasible(s):
                        eng.raise_(s, Exc(e))
                s = st.assume(z3.Or(status == 0, status == 3))
                return [(s, OpenText(eng.tostr(a[0]), [], text, status))] if eng.feasible(s) else []

            def isfile(eng, st, a, kw, node):
                return [(st, Sym("bool", z3.Or(status == 0, status == 3)))]

            def exists(eng, st, a, kw, node):
                return [(st, Sym("bool", status != 1))]
            c.eng.ext["builtins.open"] = op
            c.eng.ext["os.path.isfile"] = isfile
            c.eng.ext["os.path.exists"] = exists
            rets, raises = c.run(st, [], {"dir": Sym("str", d), "fsw": FsStub([], text, status) if fsw else None}, self_=n)
            what = "%s, %s" % ("filesystem object" if fsw else "local file", "given tvalue" if explicit else "tvalue from content")
            tt = t if explicit else S_tv(content)
            ok = z3.And(status == 0, tt != s_(""), tt == S_tv(text))
            m = {"content": content, "text": text}
            for s, e in raises:
                c.eng.unreachable(s, "%s: no exception (%s)" % (what, e.name))
            for s, v in rets:
                c.cover(s, what)
                b = v if isinstance(v, bool) else v.t
                c.prove(s, b == ok if not isinstance(b, bool) else (ok if b else z3.Not(ok)), "%s: the verdict" % what, model_of=m)
                for p in s.ghost.get("read", ()):
                    for s2, q in joined(c, s, d, z3.Concat(s_("0="), tt)):
                        c.prove(s2, p == c.eng.tostr(q), "%s: looks at its own file" % what)
