"""Trusted models of library functions and of methods of built-in types."""
import posixpath

import z3

from . import values as V_
from . import rx
from .values import (V, Sym, Opaque, UNDEF, Undef, Union, Ref, Func, ClassV, Ext, Bound, Exc, Inst, ListObj, DictObj, SetObj,
                     MapObj, AccList, JoinList, StarJoin, Unsupported, fresh, lit, IntS, BoolS, StrS, SetS, EMPTY,
                     KN, KB, KI, KF, KS, KL, KD, kind, jlen, at, mem, nk, key, kidx, has, get, iv, bv, sv, boxi, boxb, boxs, noneV, card, setof)

TRUE = z3.BoolVal(True)


class Matched:
    """A match of an abstract regex: true, nothing else is known."""

    def truth(self, eng, st):
        return [(st, True)]

    def getattr(self, eng, st, name, node):
        return [(st, Opaque(name))]

    def method(self, eng, st, name, a, kw, node):
        return [(st, Opaque(name))]


class Externals:
    def __init__(self, eng, B):
        self.eng, self.B = eng, B

    # ---- builtins ----
    def x_builtins_len(self, st, a, kw, node):
        eng, x = self.eng, a[0]
        items = self.B.concrete_items(st, x)
        if items is not None:
            return [(st, len(items))]
        if isinstance(x, Ref):
            o = st.heap[x.oid]
            if isinstance(o, AccList):
                return [(st, Sym("int", o.len))]
            if isinstance(o, SetObj):
                return [(st, Sym("int", card(o.arr)))]
            if isinstance(o, MapObj):
                return [(st, Sym("int", card(o.dom)))]
            if hasattr(o, "len_"):
                return o.len_(eng, st, node)
        if isinstance(x, Sym) and x.sort == "str":
            return [(st, Sym("int", z3.Length(x.t)))]
        if isinstance(x, Sym) and x.sort == "V":
            t = x.t
            st = eng.raise_if(st, z3.Not(z3.Or(kind(t) == KL, kind(t) == KD, kind(t) == KS)), TypeError)
            if st is None:
                return []
            return [(st, Sym("int", z3.If(kind(t) == KD, nk(t), z3.If(kind(t) == KL, jlen(t), z3.Function("slen", V, IntS)(t)))))]
        from .builtins_model import SetVal, SegList, KeysView
        if isinstance(x, SetVal):
            return [(st, Sym("int", card(x.arr)))]
        if isinstance(x, SegList) and x.hi is None:
            from .builtins_model import s_nseg
            if x.native:
                n = z3.Function("S_nseg", StrS, StrS, IntS)(x.p, x.sep)
            else:
                n = s_nseg(x.p, x.sep)
            return [(st.assume(n >= 1), Sym("int", n))]
        if isinstance(x, KeysView):
            return self.x_builtins_len(st, [x.base], kw, node)
        if x is None or isinstance(x, (int, float)):
            eng.raise_(st, Exc(TypeError))
            return []
        if isinstance(x, Opaque):
            n = fresh("int", "len")
            return [(st.assume(n >= 0), Sym("int", n))]
        if hasattr(x, "len_"):
            return x.len_(eng, st, node)
        raise Unsupported("len of %r" % (x,), node)

    def type_test(self, st, x, c, node):
        """Formula/bool: isinstance(x, c) for a class value c."""
        n = c.name if isinstance(c, Ext) else None
        if isinstance(x, Opaque):
            return fresh("bool", "nd")
        if isinstance(x, Sym):
            if x.sort == "V":
                k = {"builtins.str": [KS], "builtins.dict": [KD], "builtins.list": [KL], "builtins.int": [KI, KB], "builtins.bool": [KB],
                     "builtins.float": [KF]}.get(n)
                if k is None:
                    return False
                return z3.Or(*[kind(x.t) == y for y in k])
            return n in {"str": ["builtins.str"], "int": ["builtins.int"], "bool": ["builtins.bool", "builtins.int"], "real": ["builtins.float"]}[x.sort]
        if isinstance(x, Ref):
            o = st.heap[x.oid]
            if isinstance(o, Inst):
                if isinstance(c, ClassV):
                    return self.subclass(o.cls, c.info)
                return False
            return n in {ListObj: ["builtins.list"], AccList: ["builtins.list"], DictObj: ["builtins.dict"], MapObj: ["builtins.dict"],
                         SetObj: ["builtins.set"]}.get(type(o), getattr(o, "types", []))
        if isinstance(x, bool):
            return n in ("builtins.bool", "builtins.int")
        if isinstance(x, int):
            return n == "builtins.int"
        if isinstance(x, str):
            return n == "builtins.str"
        if isinstance(x, float):
            return n == "builtins.float"
        if isinstance(x, tuple):
            return n == "builtins.tuple"
        if x is None:
            return False
        if isinstance(x, Exc):
            return self.eng.exc_matches(x, c)
        if hasattr(x, "types"):
            return n in x.types
        if x.__class__.__name__ == "FrozenConst":
            return n == "builtins." + type(x.v).__name__
        raise Unsupported("isinstance of %r" % (x,), node)

    def subclass(self, ci, target):
        if ci is target:
            return True
        if ci is None:
            return False
        import ast
        for b in ci.bases:
            if isinstance(b, ast.Name):
                v = self.eng.global_name(ci.mod, b.id)
                if isinstance(v, ClassV) and self.subclass(v.info, target):
                    return True
        return False

    def x_builtins_isinstance(self, st, a, kw, node):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        ts = [self.type_test(st, a[0], c, node) for c in cs]
        if all(isinstance(t, bool) for t in ts):
            return [(st, any(ts))]
        return [(st, Sym("bool", z3.Or(*[t if z3.is_expr(t) else z3.BoolVal(t) for t in ts])))]

    def x_builtins_hasattr(self, st, a, kw, node):
        return [(st, Sym("bool", fresh("bool", "nd")))]

    def x_builtins_type(self, st, a, kw, node):
        return [(st, Opaque("type"))]

    def x_builtins_str(self, st, a, kw, node):
        if not a:
            return [(st, "")]
        return self.B.to_str(st, a[0], node)

    def x_builtins_repr(self, st, a, kw, node):
        return [(st, Opaque("repr"))]

    def x_builtins_bool(self, st, a, kw, node):
        return self.eng.merge_vals([(s, b) for s, b in self.eng.truth(st, a[0])])

    def x_builtins_print(self, st, a, kw, node):
        return [(st, None)]

    def x_builtins_int(self, st, a, kw, node):
        eng, x = self.eng, a[0]
        if isinstance(x, bool) or isinstance(x, int):
            return [(st, int(x))]
        if isinstance(x, str):
            try:
                return [(st, int(x))]
            except ValueError:
                eng.raise_(st, Exc(ValueError))
                return []
        if isinstance(x, Sym) and x.sort in ("int", "bool"):
            return [(st, Sym("int", eng.toint(x)))]
        if isinstance(x, Sym) and x.sort == "str":
            if not eng.feasible(st, z3.Not(z3.InRe(x.t, V_.DIGITS))):
                return [(st, Sym("int", V_.S_int(x.t)))]
            digits = rx.language(r"\d+", (), "fullmatch")
            # other spellings (signs, blanks, underscores): may be refused, or give some number
            st = eng.raise_if(st, z3.And(z3.Not(z3.InRe(x.t, digits)), fresh("bool", "refused")), ValueError)
            return [] if st is None else [(st, Sym("int", V_.S_int(x.t)))]
        if isinstance(x, Sym) and x.sort == "V":
            t = x.t
            st = eng.raise_if(st, z3.Or(kind(t) == KN, kind(t) == KL, kind(t) == KD), TypeError)
            if st is None:
                return []
            bad = fresh("bool", "badint")
            st = eng.raise_if(st, bad, ValueError)
            n = z3.Function("toint", V, IntS)(t)
            return [] if st is None else [(st.assume(z3.Implies(kind(t) == KI, n == iv(t))), Sym("int", n))]
        if isinstance(x, Sym) and x.sort == "real":
            n = fresh("int", "trunc")
            st = st.copy()
            st.fact_(z3.If(x.t >= 0, z3.And(z3.ToReal(n) <= x.t, x.t < z3.ToReal(n) + 1), z3.And(z3.ToReal(n) >= x.t, x.t > z3.ToReal(n) - 1)))
            return [(st, Sym("int", n))]
        if x is None:
            eng.raise_(st, Exc(TypeError))
            return []
        if isinstance(x, Opaque):
            eng.raise_(st.assume(fresh("bool", "nd")), Exc(ValueError))
            return [(st, Sym("int", fresh("int", "opq")))]
        raise Unsupported("int of %r" % (x,), node)

    def x_builtins_float(self, st, a, kw, node):
        eng, x = self.eng, a[0]
        if isinstance(x, (int, float)):
            return [(st, float(x))]
        if isinstance(x, Sym) and x.sort == "str":
            f = z3.Function("S_float", StrS, z3.RealSort())
            d = z3.Range("0", "9")
            ok = z3.InRe(x.t, z3.Concat(z3.Star(d), z3.Option(z3.Re(".")), z3.Plus(d)))
            st = eng.raise_if(st, z3.Not(ok), ValueError)
            return [] if st is None else [(st, Sym("real", f(x.t)))]
        raise Unsupported("float", node)

    def x_builtins_abs(self, st, a, kw, node):
        if isinstance(a[0], (int, float)):
            return [(st, abs(a[0]))]
        t = a[0].t
        return [(st, Sym(a[0].sort, z3.If(t >= 0, t, -t)))]

    def x_builtins_max(self, st, a, kw, node):
        return self.minmax(st, a, True, node)

    def x_builtins_min(self, st, a, kw, node):
        return self.minmax(st, a, False, node)

    def minmax(self, st, a, mx, node):
        if len(a) == 2 and all(self.B.isnum(x) for x in a):
            if all(isinstance(x, (int, float)) for x in a):
                return [(st, (max if mx else min)(a))]
            x, y = self.eng.toint(a[0]), self.eng.toint(a[1])
            return [(st, Sym("int", z3.If(x >= y, x, y) if mx else z3.If(x <= y, x, y)))]
        raise Unsupported("min/max", node)

    def x_builtins_range(self, st, a, kw, node):
        from .builtins_model import Range
        if all(isinstance(x, int) for x in a):
            r = range(*a)
            if len(r) <= 64:
                return [(st, r)]
        if len(a) > 2:
            raise Unsupported("range step", node)
        lo, hi = (0, a[0]) if len(a) == 1 else a
        for x in (lo, hi):
            if not self.B.isnum(x):
                raise Unsupported("range of %r" % (x,), node)
        return [(st, Range(lo, hi))]

    def x_builtins_enumerate(self, st, a, kw, node):
        from .builtins_model import Enum
        return [(st, Enum(a[0], a[1] if len(a) > 1 else kw.get("start", 0)))]

    def x_builtins_zip(self, st, a, kw, node):
        its = [self.B.concrete_items(st, x) for x in a]
        if any(i is None for i in its):
            raise Unsupported("zip", node)
        return [(st, tuple(zip(*its)))]

    def x_builtins_set(self, st, a, kw, node):
        eng, B = self.eng, self.B
        if not a:
            return B.newset(st, EMPTY)
        x = a[0]
        out = []
        if isinstance(x, Sym) and x.sort == "V":
            st = eng.raise_if(st, z3.Not(z3.Or(kind(x.t) == KL, kind(x.t) == KD)), TypeError)
            if st is None:
                return []
            # elements must be hashable
            j = z3.Int("j")
            w = fresh("int", "w")
            el = at(x.t, w)
            bad = z3.And(kind(x.t) == KL, 0 <= w, w < jlen(x.t), z3.Or(kind(el) == KL, kind(el) == KD))
            b = fresh("bool", "unhashable")
            s1 = st.assume(z3.And(b, bad))
            eng.raise_(s1, Exc(TypeError))
            s2 = st.assume(z3.Not(b))
            return B.newset(s2, setof(x.t))
        from .builtins_model import CompV
        if isinstance(x, CompV):
            s = st.copy()
            arr = x.image(eng, s)
            return B.newset(s, arr)
        arr = B.anyset(st, x)
        if arr is None:
            w = B.view(st, x, node)
            if w is None:
                raise Unsupported("set(%r)" % (x,), node)
            s = w.st.copy()
            i = fresh("int", "ci")
            arr = CompV(w, i, [(TRUE, w.elem(i))], "set").image(eng, s)
            return B.newset(s, arr)
        return B.newset(st, arr)

    x_builtins_frozenset = x_builtins_set

    def x_builtins_dict(self, st, a, kw, node):
        s = st.copy()
        if a:
            raise Unsupported("dict()", node)
        return [(s, self.eng.alloc(s, DictObj(kw)))]

    def x_builtins_list(self, st, a, kw, node):
        eng, B = self.eng, self.B
        s = st.copy()
        if not a:
            return [(s, eng.alloc(s, ListObj()))]
        it = B.concrete_items(st, a[0])
        if it is not None:
            return [(s, eng.alloc(s, ListObj(it)))]
        from .builtins_model import CompV, KeysView
        x = a[0]
        if isinstance(x, CompV):
            return [(s, CompV(x.view, x.i, x.rows, "list").materialise(eng, s))]
        if isinstance(x, KeysView) and isinstance(x.base, Sym) and x.what == "keys":
            d = x.base.t
            return [(s, eng.alloc(s, AccList(setof(d), nk(d), (), B.newseq(s, nk(d), lambda j: key(d, j)))))]
        arr = B.anyset(st, x)
        if arr is not None:
            n = jlen(x.t) if isinstance(x, Sym) else (st.heap[x.oid].len if isinstance(x, Ref) and isinstance(st.heap[x.oid], AccList) else card(arr))
            if isinstance(x, Sym):
                n = z3.If(kind(x.t) == KD, nk(x.t), n)
            seq = None
            if isinstance(x, Sym):
                seq = B.newseq(s, n, lambda j: z3.If(kind(x.t) == KD, key(x.t, j), at(x.t, j)))
            elif isinstance(x, Ref) and isinstance(s.heap[x.oid], AccList):
                seq = s.heap[x.oid].seq
            return [(s, eng.alloc(s, AccList(arr, n, (), seq)))]
        raise Unsupported("list(%r)" % (x,), node)

    def x_builtins_tuple(self, st, a, kw, node):
        it = self.B.concrete_items(st, a[0]) if a else []
        if it is None:
            return [(st, Opaque("tuple"))]
        return [(st, tuple(it))]

    def x_builtins_sorted(self, st, a, kw, node):
        """Sorted copy: same elements; the order is only kept for concrete lists of concrete strings."""
        it = self.B.concrete_items(st, a[0])
        if it is not None and all(isinstance(x, (str, int)) for x in it) and not kw:
            s = st.copy()
            return [(s, self.eng.alloc(s, ListObj(sorted(it))))]
        if kw.get("reverse") not in (None, True, False):
            raise Unsupported("sorted reverse", node)
        out = []
        for s, r in self.x_builtins_list(st, [a[0]], {}, node):
            o = s.heap[r.oid]
            if not isinstance(o, AccList):
                o = self.B.acclist(o)
            x = a[0]
            out += self.ordered(s, o, kw.get("key"), bool(kw.get("reverse")), node, distinct=o.len.eq(card(o.arr)) and self.B.anyset(st, x) is not None)
        return out

    def ordered(self, st, o, kf, reverse, node, distinct=False):
        """A list with the elements of o in increasing order of kf(element) (of the elements themselves without kf)."""
        eng = self.eng
        from .loops import mark
        s = st.copy()
        q, i, j = fresh(V_.SeqS, "sorted"), z3.Int("i"), z3.Int("j")
        new = AccList(o.arr, o.len, (), q)
        x = fresh("V", "elem")
        born = mark()
        p = s.copy()
        p.assume_(o.arr[x])
        base = len(p.pc)
        if kf is None:
            rel = z3.Function("str_le", V, V, BoolS)
            le = lambda a, b: rel(a, b)
        else:
            rows = eng.call(p, kf, [Sym("V", x)], {}, node)
            if not rows:
                s.assume_(o.len == 0)
                return [(s, eng.alloc(s, new))]
            if len(rows) > 1 or not (isinstance(rows[0][1], Sym) and rows[0][1].sort == "int"):
                raise Unsupported("sort key", node)
            t = rows[0][1].t
            if any("!" in n and n != x.decl().name() and int(n.rsplit("!", 1)[1]) > born for n in V_.symbols([t])):
                raise Unsupported("sort key with intermediate values", node)
            le = lambda a, b: z3.substitute(t, (x, a)) <= z3.substitute(t, (x, b))
            # no exception was raised: the path condition of the call holds for every element
            rel_pc = [c for c in rows[0][0].pc[base:] if not any("!" in n and n != x.decl().name() and int(n.rsplit("!", 1)[1]) > born for n in V_.symbols([c]))]
            if rel_pc:
                y = z3.Const("y", V)
                s.fact_(z3.ForAll([y], z3.Implies(o.arr[y], z3.substitute(z3.And(*rel_pc), (x, y)))))
                s.fact_(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.len), z3.substitute(z3.And(*rel_pc), (x, q[j]))), patterns=[q[j]]))
        if reverse:
            le0 = le
            le = lambda a, b: le0(b, a)
        s.fact_(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < o.len), le(q[i], q[j])), patterns=[z3.MultiPattern(q[i], q[j])]))
        if distinct:
            # from a set (or the keys of a dict): every element once
            s.fact_(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < o.len), q[i] != q[j]), patterns=[z3.MultiPattern(q[i], q[j])]))
        if o.seq is not None:
            # a permutation: distinct elements stay distinct
            m = z3.Function("perm!%d" % next(V_._cnt), IntS, IntS)
            s.fact_(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.len), z3.And(0 <= m(j), m(j) < o.len, q[j] == o.seq[m(j)])), patterns=[q[j]]))
            s.fact_(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < o.len), m(i) != m(j)), patterns=[z3.MultiPattern(q[i], q[j])]))
        for f in new.seqfacts():
            s.fact_(f)
        return [(s, eng.alloc(s, new))]

    def x_builtins_reversed(self, st, a, kw, node):
        it = self.B.concrete_items(st, a[0])
        if it is not None:
            return [(st, tuple(reversed(it)))]
        if isinstance(a[0], Ref) and isinstance(st.heap[a[0].oid], AccList) and st.heap[a[0].oid].seq is not None:
            s, o = st.copy(), st.heap[a[0].oid]
            q = self.B.newseq(s, o.len, lambda j: o.seq[o.len - 1 - j])
            return [(s, self.eng.alloc(s, AccList(o.arr, o.len, (), q)))]
        return [(st, a[0])]

    def x_builtins_any(self, st, a, kw, node):
        return self.anyall(st, a[0], True, node)

    def x_builtins_all(self, st, a, kw, node):
        return self.anyall(st, a[0], False, node)

    def anyall(self, st, x, want, node):
        from .builtins_model import CompV
        eng = self.eng
        it = self.B.concrete_items(st, x)
        if it is not None:
            cur, done = [st], []
            for v in it:
                nxt = []
                for s in cur:
                    for s2, b in eng.truth(s, v):
                        (done if b == want else nxt).append(s2)
                cur = eng.merge_states(nxt)
            return eng.merge_vals([(s, want) for s in done] + [(s, not want) for s in cur])
        if isinstance(x, CompV):
            w, i = x.view, x.i
            rows = []
            for c, v in x.rows:
                b = z3.BoolVal(v) if isinstance(v, bool) else v.t if isinstance(v, Sym) and v.sort == "bool" else None
                if b is None:
                    raise Unsupported("any/all over non-boolean", node)
                rows.append(z3.And(c, b) if want else z3.And(c, z3.Not(b)))
            hit = z3.Or(*rows) if rows else z3.BoolVal(False)
            k = fresh("int", "wit")
            b = fresh("bool", "found")
            j = z3.Int("j")
            s = st.copy()
            s.fact_(z3.Implies(b, z3.And(0 <= k, k < w.n, z3.substitute(hit, (i, k)))))
            body = z3.Implies(z3.And(0 <= j, j < w.n), z3.Not(z3.substitute(hit, (i, j))))
            p = w.patterns(j)
            s.fact_(z3.Implies(z3.Not(b), z3.ForAll([j], body, patterns=p) if p else z3.ForAll([j], body)))
            return [(s, Sym("bool", b if want else z3.Not(b)))]
        raise Unsupported("any/all", node)

    def x_builtins_open(self, st, a, kw, node):
        return [(st, Opaque("file"))]

    def x_builtins_super(self, st, a, kw, node):
        raise Unsupported("super with arguments", node)

    # ---- os.path ----
    def x_os_path_join(self, st, a, kw, node):
        eng, B = self.eng, self.B
        if all(isinstance(x, str) for x in a):
            return [(st, posixpath.join(*a))]
        while len(a) > 1 and isinstance(a[0], str) and a[0] == "":
            a = a[1:]
        if len(a) == 1 and not isinstance(a[0], StarJoin) and eng.feasible(st, kind(a[0].t) != KS if isinstance(a[0], Sym) and a[0].sort == "V" else z3.BoolVal(False)) is False:
            return [(st, a[0])]
        if any(isinstance(x, Opaque) for x in a):
            return [(st, Opaque("path"))]
        if any(isinstance(x, StarJoin) for x in a):
            for x in a:
                if isinstance(x, StarJoin):
                    if eng.feasible(st, x.o.n <= 0):
                        raise Unsupported("join of a list that may be empty", node)
                    eng.prove(st, x.o.clean, "the list joined to a path consists of plain segments", node)
                    st = st.assume(x.o.clean)
            a = [Sym("str", x.o.text) if isinstance(x, StarJoin) else x for x in a]
            if len(a) == 1:
                return [(st, a[0])]
        if not eng.native and not any(isinstance(x, Sym) and x.sort == "str" for x in a):
            f = z3.Function("os_join%d" % len(a), *([V] * (len(a) + 1)))
            t = f(*[eng.toV(x) for x in a])
            s = st.assume(kind(t) == KS)
            return [(s, Sym("V", t))]
        cur = [(st, a[0])]
        for x in a[1:]:
            nxt = []
            for s, p in cur:
                xt, pt = eng.tostr(x), eng.tostr(p)
                slash = z3.StringVal("/")
                absx, rest = eng.fork(s, z3.PrefixOf(slash, xt))
                if absx is not None:
                    nxt.append((absx, x))
                if rest is not None:
                    e1, e2 = eng.fork(rest, z3.Or(pt == z3.StringVal(""), z3.SuffixOf(slash, pt)))
                    if e1 is not None:
                        nxt.append((e1, B.concat([p, x]) if p != "" else x))
                    if e2 is not None:
                        nxt.append((e2, B.concat([p, "/", x])))
            cur = eng.merge_vals(nxt)
        return cur

    def x_os_path_basename(self, st, a, kw, node):
        if isinstance(a[0], str):
            return [(st, posixpath.basename(a[0]))]
        return [(st, self.ufun(st, "os_basename", a))]

    def x_os_path_dirname(self, st, a, kw, node):
        if isinstance(a[0], str):
            return [(st, posixpath.dirname(a[0]))]
        return [(st, self.ufun(st, "os_dirname", a))]

    def x_os_path_normpath(self, st, a, kw, node):
        return [(st, self.ufun(st, "os_normpath", a))]

    def x_os_path_relpath(self, st, a, kw, node):
        return [(st, self.ufun(st, "os_relpath", a + list(kw.values())))]

    def ufun(self, st, name, a):
        """Uninterpreted string function of its arguments."""
        if any(isinstance(x, Opaque) for x in a):
            return Opaque(name)
        if self.eng.native:
            f = z3.Function("S_" + name, *([StrS] * (len(a) + 1)))
            return Sym("str", f(*[self.eng.tostr(x) for x in a]))
        f = z3.Function(name, *([V] * (len(a) + 1)))
        return Sym("V", f(*[self.eng.toV(x) for x in a]))

    def x_copy_deepcopy(self, st, a, kw, node):
        x = a[0]
        if isinstance(x, Sym) or x is None or isinstance(x, (str, int)):
            return [(st, x)]
        if hasattr(x, "deepcopy"):
            return x.deepcopy(self.eng, st)
        if isinstance(x, Ref) and hasattr(st.heap[x.oid], "deepcopy"):
            s = st.copy()
            return [(s, self.eng.alloc(s, st.heap[x.oid].deepcopy(self.eng, s)))]
        raise Unsupported("deepcopy of %r" % (x,), node)

    # ---- re ----
    def x_re_compile(self, st, a, kw, node):
        return [(st, rx.Pattern(a[0], self.flags(a[1] if len(a) > 1 else kw.get("flags"))))]

    def flags(self, f):
        if f is None:
            return ()
        return (f.name.split(".")[-1],) if isinstance(f, Ext) else tuple(x.name.split(".")[-1] for x in f) if isinstance(f, tuple) else ()

    def x_re_match(self, st, a, kw, node):
        return self.rematch(st, a[0], a[1], a[2] if len(a) > 2 else kw.get("flags"), "match", node)

    def x_re_fullmatch(self, st, a, kw, node):
        return self.rematch(st, a[0], a[1], a[2] if len(a) > 2 else kw.get("flags"), "fullmatch", node)

    def x_re_search(self, st, a, kw, node):
        return self.rematch(st, a[0], a[1], a[2] if len(a) > 2 else kw.get("flags"), "search", node)

    def x_re_sub(self, st, a, kw, node):
        """Only the substitution of single characters of a class by a fixed text, which keeps everything else."""
        eng = self.eng
        pat, repl, x = a[0], a[1], a[2]
        if len(a) > 3 or kw or not isinstance(pat, str) or not isinstance(repl, str) or "\\" in repl or not (isinstance(x, Sym) and x.sort == "str"):
            raise Unsupported("re.sub", node)
        f = rx.sub_function(pat, repl)
        t = f(x.t)
        return [(st, Sym("str", t))]

    def x_re_escape(self, st, a, kw, node):
        if isinstance(a[0], str):
            import re
            return [(st, re.escape(a[0]))]
        return [(st, Opaque("re.escape"))]

    def rematch(self, st, pat, s, flags, how, node):
        eng = self.eng
        fl = self.flags(flags)
        if isinstance(pat, rx.Pattern):
            fl = pat.flags + fl
            pat = pat.pat
        if isinstance(s, Sym) and s.sort == "V":
            st = eng.raise_if(st, kind(s.t) != KS, TypeError)
            if st is None:
                return []
        elif s is None or isinstance(s, (int, float)) or isinstance(s, Sym) and s.sort != "str" or isinstance(s, (Ref,)):
            eng.raise_(st, Exc(TypeError))
            return []
        if isinstance(s, Opaque):
            return [(st.assume(b), v) for b, v in [(fresh("bool", "m"), Opaque("match"))]] + [(st, None)]
        if hasattr(pat, "pred"):                       # abstract regex value provided by a contract
            p = pat.pred(eng, st, s, how)
            y, n = eng.fork(st, p)
            return ([(y, Matched())] if y is not None else []) + ([(n, None)] if n is not None else [])
        if not isinstance(pat, str):
            raise Unsupported("symbolic regex", node)
        return rx.match(eng, st, pat, fl, how, s, node)

    # ---- methods ----
    def method(self, st, r, name, a, kw, node):
        eng, B = self.eng, self.B
        if isinstance(r, Opaque):
            return [(st, Opaque(name))]
        if isinstance(r, Union):
            out = []
            for s, x in eng.split(st, r):
                out += self.method(s, x, name, a, kw, node)
            return out
        if isinstance(r, Ref):
            o = st.heap[r.oid]
            m = {ListObj: self.m_list, AccList: self.m_list, SetObj: self.m_set, DictObj: self.m_dict, MapObj: self.m_dict}.get(type(o))
            if m is not None:
                return m(st, r, o, name, a, kw, node)
            if hasattr(o, "method"):
                return o.method(eng, st, r, name, a, kw, node)
        if isinstance(r, Sym) and r.sort == "V":
            return self.m_json(st, r, name, a, kw, node)
        if isinstance(r, str) or isinstance(r, Sym) and r.sort == "str":
            return self.m_str(st, r, name, a, kw, node)
        from .builtins_model import KeysView, SetVal, SegList
        if r.__class__.__name__ == "FrozenConst":
            if name in ("keys", "values", "items"):
                return [(st, KeysView(r, name))]
            if name == "get" and isinstance(r.v, dict):
                return self.dict_get(st, r, a, node)
        if isinstance(r, SetVal):
            s = st.copy()
            ref = eng.alloc(s, SetObj(r.arr))
            return self.m_set(s, ref, s.heap[ref.oid], name, a, kw, node)
        if isinstance(r, KeysView) and B.setlike(st, r) is not None:
            s = st.copy()
            ref = eng.alloc(s, SetObj(B.setlike(st, r)))
            return self.m_set(s, ref, s.heap[ref.oid], name, a, kw, node)
        if hasattr(r, "method"):
            return r.method(eng, st, name, a, kw, node)
        if r is None or isinstance(r, (int, float)):
            eng.raise_(st, Exc(AttributeError))
            return []
        raise Unsupported("method %s of %r" % (name, r), node)

    def dict_get(self, st, r, a, node):
        """d.get(k[, default]) through `in` and []."""
        eng, B = self.eng, self.B
        default = a[1] if len(a) > 1 else None
        out = []
        for s, t in B.contains(st, a[0], r, node):
            y, n = eng.fork(s, t)
            if y is not None:
                out += B.getitem(y, r, a[0], node)
            if n is not None:
                out.append((n, default))
        return eng.merge_vals(out)

    def m_json(self, st, r, name, a, kw, node):
        eng, B = self.eng, self.B
        from .builtins_model import KeysView
        t = r.t
        if name in ("get", "keys", "values", "items"):
            st = eng.raise_if(st, kind(t) != KD, AttributeError)
            if st is None:
                return []
            if name == "get":
                return self.dict_get(st, r, a, node)
            return [(st, KeysView(r, name))]
        if name in ("startswith", "endswith", "lower", "split", "strip", "rstrip", "lstrip", "replace", "upper", "encode", "join", "rsplit", "format"):
            st = eng.raise_if(st, kind(t) != KS, AttributeError)
            if st is None:
                return []
            if eng.native:
                return self.m_str(st, Sym("str", sv(t)), name, a, kw, node)
            return self.m_vstr(st, t, name, a, kw, node)
        if name in ("append", "extend", "remove", "insert", "sort", "reverse", "pop", "clear", "setdefault", "update", "popitem"):
            y, n = eng.fork(st, z3.Or(kind(t) == KL, kind(t) == KD))
            if n is not None:
                eng.raise_(n, Exc(AttributeError))
            if y is not None:
                eng.json_write(y, r, node)
            return []
        if name == "copy" and not a:
            # an equal value; that neither is changed later is checked where a value would be (json_write)
            st = eng.raise_if(st, z3.Not(z3.Or(kind(t) == KL, kind(t) == KD)), AttributeError)
            return [(st, r)] if st is not None else []
        raise Unsupported("method %s of a JSON value" % name, node)

    def m_vstr(self, st, t, name, a, kw, node):
        eng = self.eng
        from . import builtins_model as bm
        if name in ("startswith", "endswith"):
            f = bm.s_starts if name == "startswith" else bm.s_ends
            xs = a[0] if isinstance(a[0], tuple) else (a[0],)
            return [(st, Sym("bool", z3.Or(*[f(t, eng.toV(x)) for x in xs])))]
        if name == "lower":
            return [(st.assume(kind(bm.s_lower(t)) == KS), Sym("V", bm.s_lower(t)))]
        if name == "split":
            if len(a) == 1:
                return [(st, bm.SegList(t, eng.toV(a[0]), False))]
            if len(a) == 2 and a[1] == 1:
                # first separator only: [head, rest] when the separator occurs, else [whole]
                h = z3.Function("str_head", V, V, V)(t, eng.toV(a[0]))
                rest = z3.Function("str_rest", V, V, V)(t, eng.toV(a[0]))
                y, n = eng.fork(st, bm.s_contains(t, eng.toV(a[0])))
                out = []
                if y is not None:
                    y = y.assume(z3.And(kind(h) == KS, kind(rest) == KS))
                    out.append((y, eng.alloc(y, ListObj((Sym("V", h), Sym("V", rest))))))
                if n is not None:
                    n = n.copy()
                    out.append((n, eng.alloc(n, ListObj((Sym("V", t),)))))
                return out
        f = z3.Function("str_" + name + str(len(a)), *([V] * (len(a) + 2)))
        if name in ("strip", "rstrip", "lstrip", "replace", "upper"):
            u = f(t, *[eng.toV(x) for x in a])
            return [(st.assume(kind(u) == KS), Sym("V", u))]
        if name == "join":
            return self.join(st, Sym("V", t), a[0], node)
        if name == "format":
            return [(st, Opaque("format"))]
        if name == "encode":
            st = eng.raise_if(st, fresh("bool", "unencodable"), Exc(UnicodeEncodeError))
            return [] if st is None else [(st, Opaque("bytes"))]
        raise Unsupported("string method " + name, node)

    def join(self, st, sep, x, node):
        eng, B = self.eng, self.B
        from . import builtins_model as bm
        it = B.concrete_items(st, x)
        if it is not None:
            if all(isinstance(y, str) for y in it) and isinstance(sep, str):
                return [(st, sep.join(it))]
            ps = []
            for n, y in enumerate(it):
                if n:
                    ps.append(sep)
                ps.append(y)
            return [(st, B.concat(ps))]
        if isinstance(x, Ref) and isinstance(st.heap[x.oid], JoinList) and sep == "/":
            return [(st, Sym("str", st.heap[x.oid].text))]
        if isinstance(x, bm.SegList):
            if x.native:
                if x.hi == -1:
                    return [(st, Sym("str", bm.S_parent(x.p, x.sep)))]
                if x.hi is None:
                    return [(st, Sym("str", x.p))]
            else:
                if x.hi is None and eng.toV(sep).eq(x.sep):
                    return [(st, Sym("V", x.p))]
                if x.hi == -1 and eng.toV(sep).eq(x.sep):
                    u = bm.s_parent(x.p, x.sep)
                    return [(st.assume(kind(u) == KS), Sym("V", u))]
                if isinstance(x.hi, (int, Sym)) and eng.toV(sep).eq(x.sep) and not (isinstance(x.hi, int) and x.hi < 0):
                    u = bm.s_pre(x.p, x.sep, eng.toint(x.hi))
                    return [(st.assume(kind(u) == KS), Sym("V", u))]
        if hasattr(x, "join"):
            return x.join(eng, st, sep, node)
        if isinstance(x, bm.SegCat) and x.tail.native and x.tail.hi == -1:
            ps = []
            for y in x.atoms:
                ps += [y, sep]
            ps.append(Sym("str", x.tail.p))
            whole = B.concat(ps)
            return [(st, Sym("str", bm.S_parent(whole.t, x.tail.sep)))]
        if isinstance(x, (Ref, Opaque)) or isinstance(x, (bm.SetVal, bm.KeysView)) or isinstance(x, Sym):
            # joined only for messages: elements must be strings
            self.join_check(st, x, node)
            return [(st, Opaque("join"))]
        raise Unsupported("join of %r" % (x,), node)

    def join_check(self, st, x, node):
        """join raises TypeError unless every element is a string: recorded as an obligation-like fork."""
        eng, B = self.eng, self.B
        arr = B.anyset(st, x)
        if arr is None:
            return
        e = fresh("V", "el")
        bad = z3.And(arr[e], kind(e) != KS)
        s = st.assume(bad)
        if eng.feasible(s):
            eng.raise_(s, Exc(TypeError))

    def m_str(self, st, r, name, a, kw, node):
        eng, B = self.eng, self.B
        from . import builtins_model as bm
        if isinstance(r, str) and all(isinstance(x, (str, int)) or x is None or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in a) \
                and name in ("startswith", "endswith", "lower", "upper", "strip", "rstrip", "lstrip", "replace", "find", "rfind", "count", "isdigit"):
            return [(st, getattr(r, name)(*a))]
        if isinstance(r, str) and name == "split" and all(isinstance(x, (str, int)) for x in a):
            s = st.copy()
            return [(s, eng.alloc(s, ListObj(r.split(*a))))]
        if name == "join":
            return self.join(st, r, a[0], node)
        if name == "format":
            return [(st, Opaque("format"))]
        t = eng.tostr(r)
        for x in a:
            if isinstance(x, (int, float)) and name in ("startswith", "endswith"):
                eng.raise_(st, Exc(TypeError))
                return []
        if name in ("startswith", "endswith"):
            xs = a[0] if isinstance(a[0], tuple) else (a[0],)
            f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            return [(st, Sym("bool", z3.Or(*[f(eng.tostr(x), t) for x in xs])))]
        if name == "split" and len(a) == 1:
            return [(st, bm.SegList(t, eng.tostr(a[0]), True))]
        if name == "split" and len(a) == 2 and a[1] == 1:
            i = z3.IndexOf(t, eng.tostr(a[0]), 0)
            y, n = eng.fork(st, z3.Contains(t, eng.tostr(a[0])))
            out = []
            if y is not None:
                y = y.copy()
                out.append((y, eng.alloc(y, ListObj((Sym("str", z3.SubString(t, 0, i)),
                                                     Sym("str", z3.SubString(t, i + z3.Length(eng.tostr(a[0])), z3.Length(t))))))))
            if n is not None:
                n = n.copy()
                out.append((n, eng.alloc(n, ListObj((r,)))))
            return out
        if name == "lower":
            from . import rx, reg
            lg = rx.known_lang(st.pc).get(t.get_id()) if z3.is_const(t) else None
            if lg is not None and reg.empty(reg.conj([lg, reg.neg(reg.conv(z3.Star(z3.Union(z3.Range(" ", "@"), z3.Range("[", "~")))))])):
                return [(st, Sym("str", t))]        # ASCII without capitals
            return [(st, Sym("str", bm.S_lower(t)))]
        if name == "find":
            return [(st, Sym("int", z3.IndexOf(t, eng.tostr(a[0]), 0)))]
        if name in ("strip", "rstrip", "lstrip", "upper", "replace", "casefold", "swapcase", "title", "capitalize") and not kw:
            f = z3.Function("S_" + name + str(len(a)), *([StrS] * (len(a) + 2)))
            return [(st, Sym("str", f(t, *[eng.tostr(x) for x in a])))]
        if name == "encode":
            enc = (a[0] if a else kw.get("encoding", "utf8"))
            if not isinstance(enc, str):
                raise Unsupported("encoding", node)
            return [(st, BytesV(t, {"utf-8": "utf8"}.get(enc.lower(), enc.lower()) if len(a) < 2 and "errors" not in kw else "errors"))]
        if name in ("isdigit", "isalpha", "isalnum", "isnumeric", "isdecimal", "isspace", "isupper", "islower", "isascii", "isidentifier", "isprintable") and not a:
            return [(st, Sym("bool", z3.Function("S_" + name, StrS, BoolS)(t)))]
        raise Unsupported("string method %s" % name, node)

    def m_list(self, st, r, o, name, a, kw, node):
        eng, B = self.eng, self.B
        if name == "append":
            return B.list_append(st, r, a[0])
        if name == "extend":
            return [(s, None) for s, _ in B.augop(st, "Add", r, a[0], node)]
        if name == "copy":
            s = st.copy()
            return [(s, eng.alloc(s, o))]
        if name == "remove" and isinstance(o, ListObj) and isinstance(a[0], str) and all(isinstance(x, str) for x in o.items):
            if a[0] not in o.items:
                eng.raise_(st, Exc(ValueError))
                return []
            l = list(o.items)
            l.remove(a[0])
            s = st.copy()
            s.heap[r.oid] = ListObj(l)
            return [(s, None)]
        if name == "pop" and isinstance(o, ListObj):
            k = a[0] if a else -1
            if isinstance(k, int) and -len(o.items) <= k < len(o.items):
                l = list(o.items)
                v = l.pop(k)
                s = st.copy()
                s.heap[r.oid] = ListObj(l)
                return [(s, v)]
        if name == "pop" and isinstance(o, AccList) and o.seq is not None and (not a or a[0] == -1):
            st = eng.raise_if(st, o.len <= 0, IndexError)
            if st is None:
                return []
            st = st.copy()
            n = z3.simplify(o.len - 1)
            rest = AccList(fresh(SetS, "list"), n, o.births, o.seq)
            for f in rest.seqfacts():
                st.fact_(f)
            st.heap[r.oid] = rest
            return [(st, Sym("V", o.seq[n]))]
        if name == "insert" and isinstance(o, ListObj) and isinstance(a[0], int):
            l = list(o.items)
            l.insert(a[0], a[1])
            s = st.copy()
            s.heap[r.oid] = ListObj(l)
            return [(s, None)]
        if name == "sort" and isinstance(o, AccList):
            return [(st, None)]
        raise Unsupported("list method " + name, node)

    def m_set(self, st, r, o, name, a, kw, node):
        eng, B = self.eng, self.B
        if name in ("add", "discard", "remove"):
            s = B.hashable(st, a[0])
            if s is None:
                return []
            x = eng.toV(a[0])
            s = s.copy()
            if name == "add":
                s.heap[r.oid] = B.addto(o, x, s.ghost.get("loopidx", ()))
            else:
                if name == "remove":
                    s = eng.raise_if(s, z3.Not(o.arr[x]), KeyError)
                    if s is None:
                        return []
                    s = s.copy()
                s.heap[r.oid] = SetObj(z3.Store(o.arr, x, z3.BoolVal(False)), o.births)
            return [(s, None)]
        if name in ("union", "difference", "intersection", "update", "issubset", "issuperset", "difference_update", "isdisjoint"):
            arrs = []
            for x in a:
                y = B.anyset(st, x)
                if y is None:
                    raise Unsupported("set.%s of %r" % (name, x), node)
                arrs.append(y)
            if name == "issubset":
                s, b = B.defbool(st, B.subset(o.arr, arrs[0]))
                return [(s, b)]
            if name == "issuperset":
                s, b = B.defbool(st, B.subset(arrs[0], o.arr))
                return [(s, b)]
            if name == "isdisjoint":
                x = z3.Const("x", V)
                s, b = B.defbool(st, z3.ForAll([x], z3.Not(z3.And(o.arr[x], arrs[0][x]))))
                return [(s, b)]
            f = {"update": "union", "difference_update": "difference"}.get(name, name)
            s = st = st.copy()
            cur = o.arr
            for y in arrs:
                cur = B.setop(st, f, cur, y)
            if name in ("update", "difference_update"):
                births = list(o.births)
                idx = s.ghost.get("loopidx", ())
                if name == "update":
                    x = z3.Const("x", V)
                    for n in range(len(births)):
                        if n < len(idx):
                            nb = fresh(births[n].sort(), "birth")
                            s.fact_(z3.ForAll([x], nb[x] == z3.If(o.arr[x], births[n][x], idx[n]), patterns=[nb[x]]))
                            births[n] = nb
                s.heap[r.oid] = SetObj(cur, births)
                return [(s, None)]
            return B.newset(st, cur)
        if name == "copy":
            return B.newset(st, o.arr)
        raise Unsupported("set method " + name, node)

    def m_dict(self, st, r, o, name, a, kw, node):
        eng, B = self.eng, self.B
        from .builtins_model import KeysView
        if name in ("keys", "values", "items"):
            return [(st, KeysView(r, name))]
        if name == "get":
            return self.dict_get(st, r, a, node)
        if name == "pop":
            default = a[1] if len(a) > 1 else None
            out = []
            for s, t in B.contains(st, a[0], r, node):
                y, n = eng.fork(s, t)
                if y is not None:
                    for s2, v in B.getitem(y, r, a[0], node):
                        out += [(s3, v) for s3 in B.delitem(s2, r, a[0], node)]
                if n is not None:
                    if len(a) > 1:
                        out.append((n, default))
                    else:
                        eng.raise_(n, Exc(KeyError))
            return eng.merge_vals(out)
        if name == "setdefault":
            out = []
            for s, t in B.contains(st, a[0], r, node):
                y, n = eng.fork(s, t)
                if y is not None:
                    out += B.getitem(y, r, a[0], node)
                if n is not None:
                    out += [(s2, a[1]) for s2 in B.setitem(n, r, a[0], a[1], node)]
            return out
        if name == "update" and isinstance(o, DictObj) and a and isinstance(a[0], Ref) and isinstance(st.heap[a[0].oid], DictObj):
            s = st.copy()
            s.heap[r.oid] = DictObj({**o.items, **st.heap[a[0].oid].items})
            return [(s, None)]
        if name == "copy":
            s = st.copy()
            return [(s, eng.alloc(s, o))]
        raise Unsupported("dict method " + name, node)


class BytesV:
    """utf-8 encoding of a string term."""

    def __init__(self, t, enc="utf8"):
        self.t, self.enc = t, enc

    def bytes_term(self, eng):
        from . import files
        return files.utf8(self.t) if self.enc == "utf8" else z3.Function("enc_" + self.enc, StrS, V)(self.t)

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]
