"""Trusted models of the Python built-ins and of the operations on values."""
import ast
import os
import re as _re

import z3

from . import values as V_
from .values import (V, Sym, Opaque, UNDEF, Undef, Union, Ref, Func, ClassV, Ext, Bound, Exc, Inst, ListObj, DictObj, SetObj,
                     MapObj, AccList, Unsupported, fresh, lit, IntS, BoolS, StrS, SetS, EMPTY,
                     KN, KB, KI, KF, KS, KL, KD, kind, jlen, at, mem, nk, key, kidx, has, get, iv, bv, sv, boxi, boxb, boxs, noneV, card, setof)

TRUE = z3.BoolVal(True)
# abstract string operations on V
s_starts = z3.Function("str_startswith", V, V, BoolS)
s_ends = z3.Function("str_endswith", V, V, BoolS)
s_contains = z3.Function("str_contains", V, V, BoolS)
s_lower = z3.Function("str_lower", V, V)
s_seg = z3.Function("str_segment", V, V, V, BoolS)      # e is a segment of p.split(sep)
s_nseg = z3.Function("str_nsegments", V, V, IntS)
s_pre = z3.Function("str_prefix_join", V, V, IntS, V)   # sep.join(p.split(sep)[:n])
s_suf = z3.Function("str_suffix_join", V, V, IntS, V)   # sep.join(p.split(sep)[n:])
s_segat = z3.Function("segat", V, V, IntS, V)           # p.split(sep)[n]
s_parent = z3.Function("str_parent", V, V, V)           # sep.join(p.split(sep)[:-1])
# native counterparts
S_seg = z3.Function("S_segment", StrS, StrS, StrS, BoolS)
S_parent = z3.Function("S_parent", StrS, StrS, StrS)
S_lower = z3.Function("S_lower", StrS, StrS)


# paths without empty, "." and ".." segments
_notslash = z3.Intersect(z3.AllChar(z3.ReSort(StrS)), z3.Complement(z3.Re("/")))
PLAIN_SEGMENT = z3.Intersect(z3.Plus(_notslash), z3.Complement(z3.Union(z3.Re("."), z3.Re(".."))))
PLAIN_PATH = z3.Concat(z3.Star(z3.Concat(PLAIN_SEGMENT, z3.Re("/"))), PLAIN_SEGMENT)


class View:
    """A symbolic sequence: n elements elem(0..n-1)."""

    def __init__(self, st, n, elem, term=None, pats=None, member=None, facts=None):
        self.facts = facts or (lambda i: [])
        self.st, self.n, self.elem, self.term, self._p, self.member = st, n, elem, term, pats, member

    def patterns(self, j):
        return self._p(j) if self._p else None


class SegList:
    """p.split(sep); or a prefix/suffix of it. lo/hi: None or concrete ints / Sym int for slices."""

    def __init__(self, p, sep, native, hi=None):
        self.p, self.sep, self.native, self.hi = p, sep, native, hi

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        if self.hi is None:
            return [(st, True)]
        b = fresh("bool", "nonempty")
        return [(st.assume(b), True), (st.assume(z3.Not(b)), False)]


class SegTail:
    """p.split(sep)[lo:] for 0 <= lo (a term)."""

    def __init__(self, p, sep, lo):
        self.p, self.sep, self.lo = p, sep, lo

    def count(self):
        n = s_nseg(self.p, self.sep)
        return z3.If(n > self.lo, n - self.lo, z3.IntVal(0))

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return eng.truth(st, Sym("bool", self.count() > 0))

    def len_(self, eng, st, node):
        return [(st, Sym("int", self.count()))]

    def join(self, eng, st, sep, node):
        if not eng.toV(sep).eq(self.sep):
            raise Unsupported("join with another separator", node)
        t = s_suf(self.p, self.sep, self.lo)
        return [(st.assume(kind(t) == KS), Sym("V", t))]


class SegCat:
    """[atoms...] + SegList"""

    def __init__(self, atoms, tail):
        self.atoms, self.tail = atoms, tail


class Range:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class KeysView:
    def __init__(self, base, what):
        self.base, self.what = base, what   # keys values items

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return eng.truth(st, self.base)


class Enum:
    def __init__(self, base, start=0):
        self.base, self.start = base, start


class Gen:
    """Lazy generator/comprehension result over a symbolic sequence, kept as source + mapping."""

    def __init__(self, arr):
        self.arr = arr


class Builtins:
    def __init__(self, eng):
        self.eng = eng
        from . import ext_model
        self.X = ext_model.Externals(eng, self)

    # ----- containers -----
    def acclist(self, o):
        a = EMPTY
        for x in o.items:
            try:
                a = z3.Store(a, self.eng.toV(x), TRUE)
            except Unsupported:
                raise
        q = z3.K(IntS, noneV)
        for k, x in enumerate(o.items):
            q = z3.Store(q, z3.IntVal(k), self.eng.toV(x))
        return AccList(a, z3.IntVal(len(o.items)), (), q)

    def setop(self, st, f, a, b):
        """Union, intersection or difference, defined element by element."""
        if a.eq(EMPTY) and f == "union":
            return b
        if b.eq(EMPTY) and f != "intersection" or a.eq(EMPTY):
            return a
        r = {"union": V_.set_union, "intersection": V_.set_intersection, "difference": V_.set_difference}[f](a, b)
        return r

    def newseq(self, st, n, elem):
        """A sequence with elem(j) at j < n."""
        q, j = fresh(V_.SeqS, "seq"), z3.Int("j")
        st.fact_(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), q[j] == elem(j)), patterns=[q[j]]))
        return q

    def mapobj(self, st, o, vsort=None):
        vs = V if vsort is None else vsort
        dom, val = EMPTY, fresh(z3.ArraySort(V, vs), "mapval")
        for k, v in o.items.items():
            kt = self.eng.toV(k)
            dom = z3.Store(dom, kt, TRUE)
            val = z3.Store(val, kt, self.mapval(st, v, vs))
        return MapObj(dom, val)

    def mapval(self, st, v, vs):
        if vs == V:
            if isinstance(v, Ref):
                raise Unsupported("container stored in a symbolic dict")
            return self.eng.toV(v)
        if vs == SetS:
            if isinstance(v, Ref):
                return self.eng.as_setarr(st.heap[v.oid])
        raise Unsupported("dict value")

    def unmap(self, st, t):
        if t.sort() == V:
            return st, Sym("V", t)
        if t.sort() == SetS:
            st = st.copy()
            return st, self.eng.alloc(st, SetObj(t))
        raise Unsupported("dict value sort")

    def concrete_items(self, st, v):
        """Python list of element values if the sequence is concrete, else None."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (range, list)):
            return list(v)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListObj):
                return list(o.items)
            if isinstance(o, DictObj):
                return list(o.items)
            if isinstance(o, SetObj) and o.arr.eq(EMPTY):
                return []
            return None
        if isinstance(v, KeysView):
            b = v.base
            if v.base.__class__.__name__ == "FrozenConst":
                items = list(b.v.items())
            elif isinstance(b, Ref) and isinstance(st.heap[b.oid], DictObj):
                items = list(st.heap[b.oid].items.items())
            else:
                return None
            return [k for k, _ in items] if v.what == "keys" else [x for _, x in items] if v.what == "values" else [tuple(kv) for kv in items]
        if v.__class__.__name__ == "FrozenConst":
            return list(v.v)
        if isinstance(v, Enum):
            b = self.concrete_items(st, v.base)
            return None if b is None else [(i + v.start, x) for i, x in enumerate(b)]
        if isinstance(v, Range) and isinstance(v.lo, int) and isinstance(v.hi, int) and v.hi - v.lo <= 64:
            return list(range(v.lo, v.hi))
        if v.__class__.__name__ == "BytesV":
            return None
        return None

    def enum_set(self, st, arr, tag="e"):
        """Enumeration of the elements of a set array."""
        eng = self.eng
        st = st.copy()
        idx = st.ghost.get("loopidx", ())
        if idx and not z3.is_quantifier(arr) and ok_pat(arr):
            # inside a loop: functions of the round, so that what a round did can be stated for all rounds
            t = z3.Function("order_%d" % next(V_._cnt), *[IntS] * (len(idx) + 1))(*idx)
            st.assume_(V_.finite(arr))
            n = V_.scount(t, arr)
            return View(st, n, lambda i: Sym("V", V_.senum(t, arr, i)), term=arr, pats=lambda j_: [V_.senum(t, arr, j_)], member=lambda y: arr[y])
        n = fresh("int", "n")
        e = z3.Function("%s!%d" % (tag, next(V_._cnt)), IntS, V)
        p = z3.Function("%spos!%d" % (tag, next(V_._cnt)), V, IntS)
        j = z3.Int("j")
        x = z3.Const("x", V)
        st.fact_(n >= 0)
        st.fact_(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(arr[e(j)], p(e(j)) == j)), patterns=[e(j)]))
        st.fact_(z3.ForAll([x], z3.Implies(arr[x], z3.And(0 <= p(x), p(x) < n, e(p(x)) == x)), patterns=[arr[x]] if not z3.is_quantifier(arr) and arr.decl().kind() != z3.Z3_OP_CONST_ARRAY and ok_pat(arr) else [p(x)]))
        return View(st, n, lambda i: Sym("V", e(i)), term=arr, pats=lambda j_: [e(j_)], member=lambda y: arr[y])

    def view(self, st, v, node=None):
        """View over a symbolic sequence (exceptions for non-iterables are raised)."""
        eng = self.eng
        if isinstance(v, Sym) and v.sort == "V":
            t = v.t
            bad = z3.Not(z3.Or(kind(t) == KL, kind(t) == KD, kind(t) == KS))
            st = eng.raise_if(st, bad, TypeError)
            if st is None:
                return View(State0(eng), z3.IntVal(0), lambda i: None)
            isl = eng.feasible(st, kind(t) == KL)
            isd = eng.feasible(st, kind(t) == KD)
            iss = eng.feasible(st, kind(t) == KS)
            if isl + isd + iss > 1:
                isl, isd, iss = [x and eng.possible(st, kind(t) == k) for x, k in ((isl, KL), (isd, KD), (iss, KS))]
            if isd and not isl and not iss:
                return View(st, nk(t), lambda i: Sym("V", key(t, i)), term=t, pats=lambda j: [key(t, j)], member=lambda y: has(t, y))
            if isl and not isd and not iss:
                return View(st, jlen(t), lambda i: Sym("V", at(t, i)), term=t, pats=lambda j: [at(t, j)], member=lambda y: mem(t, y))
            sn, sc = z3.Function("str_nchars", V, IntS), z3.Function("str_char", V, IntS, V)
            st = st.copy()
            st.fact_(sn(t) >= 0)
            return View(st, z3.If(kind(t) == KL, jlen(t), z3.If(kind(t) == KD, nk(t), sn(t))),
                        lambda i: Sym("V", z3.If(kind(t) == KL, at(t, i), z3.If(kind(t) == KD, key(t, i), sc(t, i)))), term=t)
        if isinstance(v, Sym) and v.sort == "str":
            return View(st, z3.Length(v.t), lambda i: Sym("str", z3.SubString(v.t, i, 1)), term=v.t,
                        facts=lambda i: [z3.InRe(z3.SubString(v.t, i, 1), z3.AllChar(z3.ReSort(StrS)))])
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, AccList) and o.seq is not None:
                st = st.copy()
                for f in o.seqfacts():
                    st.fact_(f)
                st.fact_(o.len >= 0)
                return View(st, o.len, lambda i: Sym("V", o.seq[i]), term=o.arr, pats=lambda j: [o.seq[j]], member=lambda y: o.arr[y])
            if isinstance(o, (SetObj, AccList)):
                return self.enum_set(st, o.arr)
            if isinstance(o, MapObj):
                return self.enum_set(st, o.dom)
        if isinstance(v, KeysView):
            b = v.base
            if isinstance(b, Sym):
                t = b.t
                mk = {"keys": lambda i: Sym("V", key(t, i)), "values": lambda i: Sym("V", get(t, key(t, i))),
                      "items": lambda i: (Sym("V", key(t, i)), Sym("V", get(t, key(t, i))))}[v.what]
                return View(st, nk(t), mk, term=t, pats=lambda j: [key(t, j)], member=(lambda y: has(t, y)) if v.what == "keys" else None)
            if isinstance(b, Ref) and isinstance(st.heap[b.oid], MapObj):
                o = st.heap[b.oid]
                w = self.enum_set(st, o.dom)
                if v.what == "keys":
                    return w
                if o.val.sort().range() == V:
                    f = lambda i: Sym("V", o.val[w.elem(i).t])
                else:
                    f = lambda i: SetVal(o.val[w.elem(i).t])
                g = f if v.what == "values" else (lambda i: (w.elem(i), f(i)))
                return View(w.st, w.n, g, term=o.dom, pats=w._p)
        if isinstance(v, Range):
            lo, hi = eng.toint(v.lo), eng.toint(v.hi)
            n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            return View(st, n, lambda i: Sym("int", lo + i), term=None)
        if isinstance(v, SegList) and v.hi is None:
            st = st.copy()
            if v.native:
                n = fresh("int", "nseg")
                e = z3.Function("seg!%d" % next(V_._cnt), IntS, StrS)
                j = z3.Int("j")
                x = z3.Const("x", StrS)
                p = z3.Function("segpos!%d" % next(V_._cnt), StrS, IntS)
                st.fact_(n >= 1)
                if z3.is_string_value(v.sep) and v.sep.as_string() == "/":
                    self.seg_facts(st, v)
                st.fact_(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), S_seg(v.p, v.sep, e(j))), patterns=[e(j)]))
                st.fact_(z3.ForAll([x], z3.Implies(S_seg(v.p, v.sep, x), z3.And(0 <= p(x), p(x) < n, e(p(x)) == x)), patterns=[S_seg(v.p, v.sep, x)]))
                return View(st, n, lambda i: Sym("str", e(i)), term=v.p, pats=lambda j_: [e(j_)])
            n = s_nseg(v.p, v.sep)
            e = z3.Function("segat", V, V, IntS, V)
            p = z3.Function("segpos", V, V, V, IntS)
            j = z3.Int("j")
            x = z3.Const("x", V)
            st.fact_(n >= 1)
            st.fact_(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(s_seg(v.p, v.sep, e(v.p, v.sep, j)), kind(e(v.p, v.sep, j)) == KS)), patterns=[e(v.p, v.sep, j)]))
            st.fact_(z3.ForAll([x], z3.Implies(s_seg(v.p, v.sep, x), z3.And(0 <= p(v.p, v.sep, x), p(v.p, v.sep, x) < n, e(v.p, v.sep, p(v.p, v.sep, x)) == x)), patterns=[s_seg(v.p, v.sep, x)]))
            return View(st, n, lambda i: Sym("V", e(v.p, v.sep, i)), term=v.p, pats=lambda j_: [e(v.p, v.sep, j_)], member=lambda y: s_seg(v.p, v.sep, y))
        if isinstance(v, Enum):
            w = self.view(st, v.base, node)
            if w is None:
                return None
            return View(w.st, w.n, lambda i: (Sym("int", i + v.start), w.elem(i)), term=w.term, pats=w._p)
        if isinstance(v, SetVal):
            return self.enum_set(st, v.arr)
        if hasattr(v, "view"):
            return v.view(eng, st, node)
        return None

    def member(self, st, c, x, node):
        """Formula: x in container c (values already kind-checked by contains)."""

    def seg_facts(self, st, v):
        """Which of the segments "", "." and ".." a path with slashes has, as far as its known language tells."""
        from . import rx, reg
        A = z3.Full(z3.ReSort(StrS))
        rs = {c: z3.Concat(z3.Option(z3.Concat(A, z3.Re("/"))), z3.Re(c), z3.Option(z3.Concat(z3.Re("/"), A))) for c in ("", ".", "..")}
        lang = rx.known_lang(st.pc).get(v.p.get_id(), reg.ALL)
        for c, r in rs.items():
            a, rr = S_seg(v.p, v.sep, z3.StringVal(c)), reg.conv(r)
            st.fact_(a == z3.InRe(v.p, r))
            if reg.empty(reg.conj([lang, rr])):
                st.fact_(z3.Not(a))
        st.fact_(z3.Implies(z3.And(*[z3.Not(S_seg(v.p, v.sep, z3.StringVal(c))) for c in rs]), z3.InRe(v.p, PLAIN_PATH)))

    # ----- strings -----
    def to_str(self, st, x, node):
        eng = self.eng
        if isinstance(x, str):
            return [(st, x)]
        if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
            return [(st, str(x))]
        if isinstance(x, Sym):
            if x.sort == "str":
                return [(st, x)]
            if x.sort == "int":
                return [(st, Sym("str", int_str(x.t), parts=[("int", x.t)]))]
            if x.sort == "V":
                return [(st, Sym("V", z3.If(kind(x.t) == KS, x.t, z3.Function("pystr", V, V)(x.t))))] if not eng.native else [(st, Sym("str", sv(x.t)))]
        return [(st, Opaque("str"))]

    def concat(self, ps):
        ps = [p for p in ps if p != ""]
        if all(isinstance(p, str) for p in ps):
            return "".join(ps)
        if any(isinstance(p, Opaque) for p in ps):
            return Opaque("concat")
        if all(isinstance(p, str) or isinstance(p, Sym) and p.sort == "str" for p in ps):
            parts = []
            for p in ps:
                parts += [("lit", p)] if isinstance(p, str) else (p.parts or [("str", p.t)])
            ts = [z3.StringVal(p) if isinstance(p, str) else p.t for p in ps]
            return Sym("str", z3.Concat(*ts) if len(ts) > 1 else ts[0], parts=parts)
        if all(isinstance(p, str) or isinstance(p, Sym) and p.sort in ("V", "str") for p in ps):
            # abstract concatenation: an uninterpreted function of its pieces
            if self.eng.native:
                ts = [self.eng.tostr(p) for p in ps]
                return Sym("str", z3.Concat(*ts) if len(ts) > 1 else ts[0])
            return Sym("V", vconcat([self.eng.toV(p) for p in ps]))
        return Opaque("concat")

    # ----- operators -----
    def isnum(self, x):
        return isinstance(x, (int, float)) and not isinstance(x, str) or isinstance(x, Sym) and x.sort in ("int", "real", "bool")

    def isstr(self, x):
        return isinstance(x, str) or isinstance(x, Sym) and x.sort == "str"

    def binop(self, st, op, a, b, node):
        eng = self.eng
        if hasattr(a, "binop"):
            return a.binop(eng, st, op, b, node)
        if op == "Add":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return [(st, a + b)]
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return [(st, a + b)]
            if self.isnum(a) and self.isnum(b):
                return [(st, self.arith(a, b, lambda x, y: x + y))]
            if isinstance(a, str) and isinstance(b, str):
                return [(st, a + b)]
            if (self.isstr(a) or isinstance(a, Sym) and a.sort == "V") and (self.isstr(b) or isinstance(b, Sym) and b.sort == "V"):
                for x in (a, b):
                    if isinstance(x, Sym) and x.sort == "V":
                        st = eng.raise_if(st, kind(x.t) != KS, TypeError)
                        if st is None:
                            return []
                r = self.concat([a, b])
                if isinstance(r, Sym) and r.sort == "V":
                    st = st.assume(kind(r.t) == KS)
                return [(st, r)]
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return [(st, Opaque("add"))]
            if isinstance(a, Ref) or isinstance(b, Ref):
                la = self.listlike(st, a)
                lb = self.listlike(st, b)
                if isinstance(b, SegList) and isinstance(la, ListObj):
                    return [(st, SegCat(list(la.items), b))]
                if la is not None and lb is not None:
                    s = st.copy()
                    if isinstance(la, ListObj) and isinstance(lb, ListObj):
                        return [(s, eng.alloc(s, ListObj(la.items + lb.items)))]
                    return [(s, eng.alloc(s, self.accadd(s, la, lb)))]
            bad = [x for x in (a, b) if x is None or isinstance(x, (str, int))]
            if a is None or b is None or (isinstance(a, str) != isinstance(b, str) and len(bad) == 2):
                eng.raise_(st, Exc(TypeError))
                return []
            if self.isstr(a) and self.isnum(b) or self.isnum(a) and self.isstr(b):
                eng.raise_(st, Exc(TypeError))
                return []
        if op in ("Add", "Sub", "Mult", "FloorDiv", "Mod", "Pow", "Div"):
            # a value of the any-sort that can only be an int here is that int
            a, b = self.only_int(st, a), self.only_int(st, b)
            if op == "Add" and self.isnum(a) and self.isnum(b):
                return [(st, self.arith(a, b, lambda x, y: x + y))]
        if op in ("Sub", "Mult", "FloorDiv", "Mod", "Pow", "Div"):
            if op == "Mod" and (isinstance(a, str) or isinstance(a, Sym) and a.sort == "str"):
                return self.format(st, a, b, node)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                try:
                    return [(st, {"Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                                  "Pow": lambda: a ** b, "Div": lambda: a / b}[op]())]
                except ZeroDivisionError:
                    eng.raise_(st, Exc(ZeroDivisionError))
                    return []
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return [(st, a * b)]
            if op == "Mult" and isinstance(a, str) and len(a) == 1 and isinstance(b, Sym) and b.sort == "int":
                z = fresh("str", "rep")
                st = st.copy()
                st.fact_(z3.InRe(z, z3.Star(z3.Re(a))))
                st.fact_(z3.Length(z) == z3.If(b.t > 0, b.t, z3.IntVal(0)))
                return [(st, Sym("str", z))]
            if self.isnum(a) and self.isnum(b) and op in ("Sub", "Mult"):
                return [(st, self.arith(a, b, (lambda x, y: x - y) if op == "Sub" else (lambda x, y: x * y)))]
            if op in ("FloorDiv", "Mod") and isinstance(b, int) and b > 0 and isinstance(a, Sym) and a.sort == "int":
                return [(st, Sym("int", a.t / b if op == "FloorDiv" else a.t % b))]
            if op == "Pow" and a == 10 and isinstance(b, Sym):
                return [(st, Sym("int", z3.Function("pow10", IntS, IntS)(eng.toint(b))))]
        if op in ("Sub", "BitAnd", "BitOr", "BitXor"):
            sa, sb = self.setlike(st, a), self.setlike(st, b)
            if sa is not None and sb is not None:
                f = {"Sub": "difference", "BitAnd": "intersection", "BitOr": "union"}.get(op)
                if f:
                    st = st.copy()
                    return self.newset(st, self.setop(st, f, sa, sb))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return [(st, Opaque("op"))]
        raise Unsupported("operator %s on %r, %r" % (op, a, b), node)

    def only_int(self, st, v):
        if isinstance(v, Sym) and v.sort == "V" and not self.eng.feasible(st, kind(v.t) != KI):
            return Sym("int", iv(v.t))
        return v

    def arith(self, a, b, f):
        if any(isinstance(x, float) or isinstance(x, Sym) and x.sort == "real" for x in (a, b)):
            def r(x):
                if isinstance(x, (int, float)):
                    return z3.RealVal(x)
                return x.t if x.sort == "real" else z3.ToReal(self.eng.toint(x))
            return Sym("real", f(r(a), r(b)))
        return Sym("int", f(self.eng.toint(a), self.eng.toint(b)))

    def listlike(self, st, v):
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], (ListObj, AccList)):
            return st.heap[v.oid]
        if isinstance(v, Sym) and v.sort == "V":
            j = z3.Int("j")
            return AccList(setof(v.t), jlen(v.t), (), z3.Lambda([j], at(v.t, j)))
        if hasattr(v, "aslist"):
            return v.aslist(self.eng, st)
        return None

    def accadd(self, st, la, lb):
        la2 = la if isinstance(la, AccList) else self.acclist(la)
        if isinstance(lb, ListObj):
            arr, births = la2.arr, la2.births
            idx = st.ghost.get("loopidx", ())
            r = la2
            for x in lb.items:
                r = self.addto(r, self.eng.toV(x), idx)
            return AccList(r.arr, la2.len + len(lb.items), r.births, r.seq)
        nb = []
        arr = self.setop(st, "union", la2.arr, lb.arr)
        idx = st.ghost.get("loopidx", ())
        if la2.births:
            x = z3.Const("x", V)
            for n, b in enumerate(la2.births):
                if n < len(idx):
                    nbv = fresh(b.sort(), "birth")
                    st.fact_(z3.ForAll([x], nbv[x] == z3.If(la2.arr[x], b[x], idx[n]), patterns=[nbv[x]]))
                    nb.append(nbv)
                else:
                    nb.append(b)
        seq = None
        if la2.seq is not None and lb.seq is not None:
            seq, j = fresh(V_.SeqS, "seq"), z3.Int("j")
            n = la2.len
            other = lb.seq[j - n] if not z3.is_quantifier(lb.seq) else z3.simplify(z3.Select(lb.seq, j - n))
            st.fact_(z3.ForAll([j], z3.And(z3.Implies(z3.And(0 <= j, j < n), seq[j] == la2.seq[j]),
                                           z3.Implies(z3.And(n <= j, j < n + lb.len), seq[j] == other)), patterns=[seq[j]]))
        return AccList(arr, la2.len + lb.len, tuple(nb), seq)

    def addto(self, o, x, idx):
        """Set/list object with x added; ghost births updated for new elements."""
        births = list(o.births)
        for n in range(len(births)):
            if n < len(idx):
                births[n] = z3.If(o.arr[x], births[n], z3.Store(births[n], x, idx[n]))
        arr = z3.Store(o.arr, x, TRUE)
        return SetObj(arr, births) if isinstance(o, SetObj) else AccList(arr, o.len + 1, births, z3.Store(o.seq, o.len, x) if o.seq is not None else None)

    def setlike(self, st, v):
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], SetObj):
            return st.heap[v.oid].arr
        if isinstance(v, SetVal):
            return v.arr
        if isinstance(v, KeysView) and v.what == "keys":
            if isinstance(v.base, Ref):
                return self.eng.as_setarr(st.heap[v.base.oid])
            if isinstance(v.base, Sym):
                return setof(v.base.t)
        return None

    def anyset(self, st, v):
        """Array of the elements of any iterable (for set(x), s.union(x), ...)."""
        a = self.setlike(st, v)
        if a is not None:
            return a
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], (ListObj, DictObj, AccList, MapObj)):
            return self.eng.as_setarr(st.heap[v.oid])
        if isinstance(v, Sym) and v.sort == "V":
            return setof(v.t)
        it = self.concrete_items(st, v)
        if it is not None:
            a = EMPTY
            for x in it:
                a = z3.Store(a, self.eng.toV(x), TRUE)
            return a
        if isinstance(v, Gen):
            return v.arr
        if hasattr(v, "asset"):
            return v.asset(self.eng, st)
        return None

    def newset(self, st, arr):
        s = st.copy()
        return [(s, self.eng.alloc(s, SetObj(arr)))]

    def augop(self, st, op, a, b, node):
        eng = self.eng
        if op == "Add" and isinstance(a, Ref) and isinstance(st.heap[a.oid], (ListObj, AccList)):
            out = []
            for s, y in eng.split(st, b):
                if isinstance(y, Sym) and y.sort == "V":
                    s = eng.raise_if(s, z3.Not(z3.Or(kind(y.t) == KL, kind(y.t) == KD, kind(y.t) == KS)), TypeError)
                    if s is None:
                        continue
                    if eng.feasible(s, kind(y.t) == KS) and eng.possible(s, kind(y.t) == KS):
                        raise Unsupported("list += string", node)
                lb = self.listlike(s, y)
                if lb is None:
                    it = self.concrete_items(s, y)
                    if it is None:
                        raise Unsupported("list += %r" % (y,), node)
                    lb = ListObj(it)
                la = s.heap[a.oid]
                s = s.copy()
                if isinstance(la, ListObj) and isinstance(lb, ListObj):
                    s.heap[a.oid] = ListObj(la.items + lb.items)
                else:
                    s.heap[a.oid] = self.accadd(s, la, lb)
                out.append((s, a))
            return out
        if isinstance(a, Sym) and a.sort == "V" and op in ("Add", "BitOr", "Mult"):
            y, n = eng.fork(st, z3.Or(kind(a.t) == KL, kind(a.t) == KD))
            if y is not None:
                eng.json_write(y, a, node)       # += on a list changes the list itself
            if n is None:
                return []
            st = n
        out = []
        for s, y in eng.split(st, b):
            out += self.binop(s, op, a, y, node)
        return out

    def format(self, st, f, b, node):
        """printf-style formatting."""
        eng = self.eng
        args = b if isinstance(b, tuple) else (b,)
        if isinstance(f, str) and all(isinstance(x, (str, int, float)) for x in args):
            try:
                return [(st, f % (args if isinstance(b, tuple) else b))]
            except (TypeError, ValueError) as e:
                eng.raise_(st, Exc(type(e)))
                return []
        parts = [("lit", f)] if isinstance(f, str) else (f.parts or None)
        if parts is None:
            return [(st, Opaque("format"))]
        # number of conversions must match the number of arguments (when the format is concrete)
        if isinstance(f, str):
            convs = _re.findall(r"%(?:%|[-#0 +]*\d*(?:\.\d+)?[sdrifx])", f)
            n = len([c for c in convs if c != "%%"])
            if n != len(args):
                if isinstance(b, tuple) or n != 1:
                    eng.raise_(st, Exc(TypeError))
                    return []
        flat = "".join(p[1] if p[0] == "lit" else "\0%d\0" % i for i, p in enumerate(parts))
        m = _re.fullmatch(r"([^%\0]*)%(?:0(?:\0(\d+)\0|(\d*)))?d([^%\0]*)", flat)
        if m and len(args) == 1 and self.isnum(args[0]):
            pre, wp, wc, suf = m.groups()
            n = eng.toint(args[0])
            if wp is not None:
                w = parts[int(wp)][1]
            else:
                w = z3.IntVal(int(wc or 0))
            s = st.copy()
            z = fresh("str", "pad")
            ds = int_str(n)
            s.fact_(z3.InRe(z, z3.Star(z3.Re("0"))))
            s.fact_(z3.Implies(n >= 0, V_.S_int(z3.Concat(z, ds)) == V_.S_int(ds)))
            s.fact_(z3.Implies(n >= 0, z3.Length(z) == z3.If(w > z3.Length(ds), w - z3.Length(ds), z3.IntVal(0))))
            if eng.native:
                t = z3.Concat(*[x for x in (z3.StringVal(pre) if pre else None, z, ds, z3.StringVal(suf) if suf else None) if x is not None])
                if not self.eng.feasible(s, n < 0):
                    return [(s, Sym("str", t))]
                return [(s, Sym("str", z3.If(n >= 0, t, fresh("str", "negfmt"))))]
            k = z3.Function("fmt:" + flat, IntS, V)
            t = k(n)
            s2 = st.assume(kind(t) == KS)
            return [(s2, Sym("V", t))]
        m = _re.fullmatch(r"([^%\0]*)%s([^%\0]*)", flat)
        if m and len(args) == 1 and eng.native and self.isstr(args[0]):
            return [(st, self.concat([m.group(1), args[0], m.group(2)]))]
        for x in args:
            if isinstance(f, str) and _re.search(r"%[0-9]*d", f) and not isinstance(x, (int, Opaque, Sym)) and len(args) == 1:
                eng.raise_(st, Exc(TypeError))
                return []
        return [(st, Opaque("format"))]

    # ----- comparisons -----
    def eq_term(self, st, a, b):
        """z3 Bool or python bool for a == b; None when unknown."""
        eng = self.eng
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return fresh("bool", "nd")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            ts = [self.eq_term(st, x, y) for x, y in zip(a, b)]
            if all(isinstance(t, bool) for t in ts):
                return all(ts)
            return z3.And(*[t if z3.is_expr(t) else z3.BoolVal(t) for t in ts])
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            if isinstance(a, (str, int, float, bool)) or a is None:
                if isinstance(b, (str, int, float, bool)) or b is None:
                    return a == b
                return False if not hasattr(b, "eq_term") else b.eq_term(self.eng, st, a)
            if isinstance(b, (str, int, float, bool)) or b is None:
                return False if not hasattr(a, "eq_term") else a.eq_term(self.eng, st, b)
            if isinstance(a, Ref) and isinstance(b, Ref):
                if a == b:
                    return True
                oa, ob = st.heap[a.oid], st.heap[b.oid]
                if isinstance(oa, SetObj) and isinstance(ob, SetObj):
                    return oa.arr == ob.arr
                if isinstance(oa, ListObj) and isinstance(ob, ListObj):
                    return self.eq_term(st, tuple(oa.items), tuple(ob.items))
                return None
            if isinstance(a, (ClassV, Ext)) and isinstance(b, (ClassV, Ext)):
                return a == b
            sa_, sb_ = self.setlike(st, a), self.setlike(st, b)
            if sa_ is not None and sb_ is not None:
                return sa_ == sb_
            if hasattr(a, "eq_term"):
                return a.eq_term(self.eng, st, b)
            return None
        if sa and sb:
            if a.sort == b.sort:
                return a.t == b.t
            if "V" in (a.sort, b.sort):
                return eng.toV(a) == eng.toV(b)
            if {a.sort, b.sort} <= {"int", "bool"}:
                return eng.toint(a) == eng.toint(b)
            if {a.sort, b.sort} <= {"int", "real", "bool"}:
                r = self.arith(a, b, lambda x, y: x == y)
                return r.t
            return False
        s, c = (a, b) if sa else (b, a)
        if s.sort == "V":
            if isinstance(c, (str, int, bool, bytes)) or c is None:
                if isinstance(c, int) and not isinstance(c, bool):
                    return z3.Or(z3.And(kind(s.t) == KI, iv(s.t) == c), z3.And(kind(s.t) == KB, z3.If(bv(s.t), 1, 0) == c))
                if isinstance(c, bool):
                    return z3.Or(z3.And(kind(s.t) == KB, bv(s.t) == c), z3.And(kind(s.t) == KI, iv(s.t) == int(c)))
                return s.t == eng.toV(c)
            if isinstance(c, Ref) and isinstance(st.heap[c.oid], (ListObj, DictObj)) and not st.heap[c.oid].items:
                if isinstance(st.heap[c.oid], DictObj):
                    return z3.And(kind(s.t) == KD, nk(s.t) == 0)
                return z3.And(kind(s.t) == KL, jlen(s.t) == 0)
            return None
        if s.sort == "str":
            return s.t == z3.StringVal(c) if isinstance(c, str) else False
        if s.sort in ("int", "bool"):
            if isinstance(c, bool) and s.sort == "bool":
                return s.t == c
            if isinstance(c, (int, bool)):
                return eng.toint(s) == int(c)
            if isinstance(c, float):
                return self.arith(s, c, lambda x, y: x == y).t
            return False
        if s.sort == "real":
            return s.t == z3.RealVal(c) if isinstance(c, (int, float)) else False
        return None

    def compare(self, st, op, a, b, node):
        eng = self.eng
        if op in ("Is", "IsNot"):
            if isinstance(a, Sym) and a.sort == "V" and b is None:
                t = a.t == noneV
            elif isinstance(b, Sym) and b.sort == "V" and a is None:
                t = b.t == noneV
            elif isinstance(a, Opaque) or isinstance(b, Opaque):
                t = fresh("bool", "nd")
            elif a is None or b is None:
                t = a is None and b is None
            elif isinstance(a, bool) and isinstance(b, bool):
                t = a is b
            elif isinstance(a, (Ref, ClassV, Ext)) and type(a) is type(b):
                t = a == b
            elif isinstance(b, bool) and isinstance(a, Sym) and a.sort in ("V", "bool"):
                t = (a.t == b) if a.sort == "bool" else z3.And(kind(a.t) == KB, bv(a.t) == b)
            elif isinstance(b, bool) and (a is None or isinstance(a, (str, Ref)) or isinstance(a, Sym) and a.sort in ("int", "str")):
                t = False
            else:
                raise Unsupported("is", node)
            return [(st, neg(t) if op == "IsNot" else wrap(t))]
        if op in ("Eq", "NotEq"):
            t = self.eq_term(st, a, b)
            if t is None:
                raise Unsupported("== on %r, %r" % (a, b), node)
            return [(st, neg(t) if op == "NotEq" else wrap(t))]
        if op in ("In", "NotIn"):
            out = []
            for s, t in self.contains(st, a, b, node):
                out.append((s, neg(t) if op == "NotIn" else wrap(t)))
            return out
        if op in ("Lt", "LtE", "Gt", "GtE"):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
                return [(st, {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op])]
            f = {"Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}[op]
            if isinstance(a, Sym) and a.sort == "V" and self.isnum(b) or isinstance(b, Sym) and b.sort == "V" and self.isnum(a):
                v = a if isinstance(a, Sym) and a.sort == "V" else b
                st = eng.raise_if(st, z3.Not(z3.Or(kind(v.t) == KI, kind(v.t) == KB, kind(v.t) == KF)), TypeError)
                if st is None:
                    return []
                rv = z3.Function("rv", V, z3.RealSort())
                def num(x):
                    if isinstance(x, Sym) and x.sort == "V":
                        return Sym("real", z3.If(kind(x.t) == KI, z3.ToReal(iv(x.t)), z3.If(kind(x.t) == KB, z3.If(bv(x.t), z3.RealVal(1), z3.RealVal(0)), rv(x.t))))
                    return x
                return [(st, Sym("bool", self.arith(num(a), num(b), f).t))]
            if self.isnum(a) and self.isnum(b):
                return [(st, Sym("bool", self.arith(a, b, f).t))]
            if self.isstr(a) and self.isnum(b) or self.isnum(a) and self.isstr(b) or a is None or b is None:
                eng.raise_(st, Exc(TypeError))
                return []
            if self.isstr(a) and self.isstr(b):
                x, y = eng.tostr(a), eng.tostr(b)
                return [(st, Sym("bool", {"Lt": x < y, "LtE": x <= y, "Gt": y < x, "GtE": y <= x}[op]))]
            sa, sb = self.setlike(st, a), self.setlike(st, b)
            if sa is not None and sb is not None:
                if op in ("Gt", "GtE"):
                    sa, sb, op = sb, sa, {"Gt": "Lt", "GtE": "LtE"}[op]
                t = self.subset(sa, sb)
                if op == "Lt":
                    t = z3.And(t, sa != sb)
                st, b_ = self.defbool(st, t)
                return [(st, b_)]
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return [(st, Sym("bool", fresh("bool", "nd")))]
        isv = lambda x: isinstance(x, str) or isinstance(x, Sym) and x.sort == "V" and eng.feasible(st, kind(x.t) != KS) is False
        if not eng.native and op in ("Lt", "Gt", "LtE", "GtE") and isv(a) and isv(b):
            # texts: a total order about which nothing else is known
            lt = z3.Function("str_lt", V, V, BoolS)
            x, y = eng.toV(a), eng.toV(b)
            st = st.assume(z3.And(z3.Not(z3.And(lt(x, y), lt(y, x))), z3.Not(lt(x, x)), z3.Or(lt(x, y), lt(y, x), x == y)))
            t = {"Lt": lt(x, y), "Gt": lt(y, x), "LtE": z3.Not(lt(y, x)), "GtE": z3.Not(lt(x, y))}[op]
            return [(st, Sym("bool", t))]
        if eng.recording and op in ("Lt", "Gt", "LtE", "GtE"):
            return [(st, Sym("bool", fresh("bool", "nd")))]       # the pass that only finds out what a loop changes
        raise Unsupported("comparison %s of %r, %r" % (op, a, b), node)

    def subset(self, sa, sb):
        x = z3.Const("x", V)
        return z3.ForAll([x], z3.Implies(sa[x], sb[x]))

    def defbool(self, st, t):
        """Name a (possibly quantified) formula by a fresh boolean."""
        if not has_q(t):
            return st, Sym("bool", t)
        b = fresh("bool", "def")
        st = st.copy()
        st.fact_(b == t)
        return st, Sym("bool", b)

    def hashable(self, st, x):
        if isinstance(x, Sym) and x.sort == "V":
            return self.eng.raise_if(st, z3.Or(kind(x.t) == KL, kind(x.t) == KD), TypeError)
        if isinstance(x, Ref) and not isinstance(st.heap[x.oid], Inst):
            self.eng.raise_(st, Exc(TypeError))
            return None
        return st

    def contains(self, st, x, c, node):
        """[(st, formula)] for x in c."""
        eng = self.eng
        if isinstance(c, Opaque):
            return [(st, fresh("bool", "nd"))]
        if c.__class__.__name__ == "FrozenConst":
            if isinstance(c.v, (dict, set, frozenset)):
                st = self.hashable(st, x)
                if st is None:
                    return []
            c = tuple(c.v)
        if isinstance(c, tuple):
            ts = [self.eq_term(st, x, y) for y in c]
            if any(t is None for t in ts):
                raise Unsupported("in tuple", node)
            if all(isinstance(t, bool) for t in ts):
                return [(st, any(ts))]
            return [(st, z3.Or(*[t if z3.is_expr(t) else z3.BoolVal(t) for t in ts]))]
        if isinstance(c, Ref):
            o = st.heap[c.oid]
            if isinstance(o, ListObj):
                return self.contains(st, x, tuple(o.items), node)
            if isinstance(o, DictObj):
                st = self.hashable(st, x)
                return [] if st is None else self.contains(st, x, tuple(o.items), node)
            if isinstance(o, (SetObj, MapObj)):
                st = self.hashable(st, x)
                if st is None:
                    return []
                return [(st, (o.arr if isinstance(o, SetObj) else o.dom)[eng.toV(x)])]
            if isinstance(o, AccList):
                return [(st, o.arr[eng.toV(x)])]
            if hasattr(o, "contains"):
                return o.contains(eng, st, x, node)
        if isinstance(c, str):
            if isinstance(x, str):
                return [(st, x in c)]
            if isinstance(x, Sym) and x.sort == "str":
                return [(st, z3.Contains(z3.StringVal(c), x.t))]
        if isinstance(c, Sym) and c.sort == "str":
            if self.isstr(x):
                return [(st, z3.Contains(c.t, eng.tostr(x)))]
            if isinstance(x, Sym) and x.sort == "V":
                return [(st, z3.Contains(c.t, sv(x.t)))]
        if isinstance(c, Sym) and c.sort == "V":
            t = c.t
            st = eng.raise_if(st, z3.Not(z3.Or(kind(t) == KL, kind(t) == KD, kind(t) == KS)), TypeError)
            if st is None:
                return []
            out = []
            for k in (KD, KL, KS):
                if not eng.feasible(st, kind(t) == k):
                    continue
                s = st.assume(kind(t) == k)
                if k == KD:
                    s = self.hashable(s, x)
                    if s is None:
                        continue
                    if isinstance(x, (str, Sym)):
                        out.append((s, has(t, eng.toV(x))))
                    else:
                        out.append((s, False))
                elif k == KL:
                    out.append((s, mem(t, eng.toV(x))))
                else:
                    if isinstance(x, Sym) and x.sort == "V":
                        s = eng.raise_if(s, kind(x.t) != KS, TypeError)
                        if s is None:
                            continue
                    out.append((s, s_contains(t, eng.toV(x))))
            return out
        if isinstance(c, KeysView) and c.what == "keys":
            return self.contains(st, x, c.base, node)
        if isinstance(c, KeysView) and c.what == "values" and isinstance(c.base, Ref) and isinstance(st.heap[c.base.oid], DictObj):
            return self.contains(st, x, tuple(st.heap[c.base.oid].items.values()), node)
        if isinstance(c, SetVal):
            return [(st, c.arr[eng.toV(x)])]
        if isinstance(c, SegList) and c.hi is None:
            if c.native:
                return [(st, S_seg(c.p, c.sep, eng.tostr(x)))]
            return [(st, s_seg(c.p, c.sep, eng.toV(x)))]
        if c is None or isinstance(c, (int, float)):
            eng.raise_(st, Exc(TypeError))
            return []
        if hasattr(c, "contains"):
            return c.contains(eng, st, x, node)
        it = self.concrete_items(st, c)
        if it is not None:
            return self.contains(st, x, tuple(it), node)
        raise Unsupported("in %r" % (c,), node)

    # ----- indexing -----
    def getitem(self, st, a, k, node):
        eng = self.eng
        if isinstance(a, Opaque):
            return [(st, Opaque("item"))]
        if a.__class__.__name__ == "FrozenConst":
            from .engine import FrozenConst
            if isinstance(a.v, dict):
                if isinstance(k, (str, int)) or k is None:
                    if k in a.v:
                        return [(st, FrozenConst.wrap(a.v[k]))]
                    eng.raise_(st, Exc(KeyError))
                    return []
                st = self.hashable(st, k)
                if st is None:
                    return []
                out, rest = [], st
                for kk, v in a.v.items():
                    t = self.eq_term(rest, k, kk)
                    y, n = eng.fork(rest, t)
                    if y is not None:
                        out.append((y, FrozenConst.wrap(v)))
                    if n is None:
                        return out
                    rest = n
                eng.raise_(rest, Exc(KeyError))
                return out
            return [(st, FrozenConst.wrap(a.v[k]))]
        if isinstance(a, tuple):
            if isinstance(k, int):
                return [(st, a[k])]
        if isinstance(a, str) and isinstance(k, int):
            if -len(a) <= k < len(a):
                return [(st, a[k])]
            eng.raise_(st, Exc(IndexError))
            return []
        if isinstance(a, Ref):
            o = st.heap[a.oid]
            if isinstance(o, ListObj):
                if isinstance(k, int):
                    if -len(o.items) <= k < len(o.items):
                        return [(st, o.items[k])]
                    eng.raise_(st, Exc(IndexError))
                    return []
            if isinstance(o, AccList):
                st = eng.raise_if(st, o.len <= 0, IndexError)
                if st is None:
                    return []
                if o.seq is not None and (isinstance(k, int) and not isinstance(k, bool) or isinstance(k, Sym) and k.sort == "int"):
                    kt = eng.toint(k)
                    st = eng.raise_if(st, z3.Not(z3.And(kt < o.len, kt >= -o.len)), IndexError)
                    if st is None:
                        return []
                    st = st.copy()
                    for f in o.seqfacts():
                        st.fact_(f)
                    return [(st, Sym("V", o.seq[z3.simplify(z3.If(kt < 0, kt + o.len, kt))]))]
                if isinstance(k, int) and k in (0, -1):
                    x = z3.Function("list_first" if k == 0 else "list_last", V_.SetS, IntS, V)(o.arr, o.len)
                    s = st.assume(o.arr[x])
                    return [(s, Sym("V", x))]
            if isinstance(o, DictObj):
                if isinstance(k, (str, int)):
                    if k in o.items:
                        return [(st, o.items[k])]
                    eng.raise_(st, Exc(KeyError))
                    return []
                st = self.hashable(st, k)
                if st is None:
                    return []
                out, rest = [], st
                for kk, v in o.items.items():
                    t = self.eq_term(rest, k, kk)
                    y, n = eng.fork(rest, t)
                    if y is not None:
                        out.append((y, v))
                    if n is None:
                        return out
                    rest = n
                eng.raise_(rest, Exc(KeyError))
                return out
            if isinstance(o, MapObj):
                st = self.hashable(st, k)
                if st is None:
                    return []
                kt = eng.toV(k)
                st = eng.raise_if(st, z3.Not(o.dom[kt]), KeyError)
                if st is None:
                    return []
                if o.val.sort().range() == V:
                    return [(st, Sym("V", o.val[kt]))]
                return [(st, SetVal(o.val[kt]))]
            if hasattr(o, "getitem"):
                return o.getitem(eng, st, a, k, node)
        if isinstance(a, Sym) and a.sort == "V":
            t = a.t
            if isinstance(k, str) or isinstance(k, Sym) and k.sort in ("str", "V"):
                if isinstance(k, Sym) and k.sort == "V" and eng.feasible(st, kind(k.t) != KS):
                    if eng.feasible(st, kind(t) != KD):
                        st = eng.raise_if(st, z3.And(kind(t) != KD), TypeError)
                        if st is None:
                            return []
                    st = self.hashable(st, k)
                    if st is None:
                        return []
                st = eng.raise_if(st, kind(t) != KD, TypeError)
                if st is None:
                    return []
                kt = eng.toV(k)
                st = eng.raise_if(st, z3.Not(has(t, kt)), KeyError)
                if st is None:
                    return []
                return [(st, Sym("V", get(t, kt)))]
            if isinstance(k, int):
                st = eng.raise_if(st, kind(t) != KL, TypeError)
                if st is None:
                    return []
                if k >= 0:
                    st = eng.raise_if(st, jlen(t) <= k, IndexError)
                    return [] if st is None else [(st, Sym("V", at(t, z3.IntVal(k))))]
                st = eng.raise_if(st, jlen(t) < -k, IndexError)
                return [] if st is None else [(st, Sym("V", at(t, jlen(t) + k)))]
        if isinstance(a, Sym) and a.sort == "str":
            if isinstance(k, int):
                n = z3.Length(a.t)
                idx = z3.IntVal(k) if k >= 0 else n + k
                st = eng.raise_if(st, z3.Or(idx < 0, idx >= n), IndexError)
                return [] if st is None else [(st, Sym("str", z3.SubString(a.t, idx, 1)))]
            if isinstance(k, Sym) and k.sort == "int":
                n = z3.Length(a.t)
                idx = z3.If(k.t >= 0, k.t, n + k.t)
                st = eng.raise_if(st, z3.Or(idx < 0, idx >= n), IndexError)
                return [] if st is None else [(st, Sym("str", z3.SubString(a.t, idx, 1)))]
        if isinstance(a, SegList):
            if a.native and isinstance(k, int) and a.hi is None:
                return [(st, self.seg_item(st, a, k))]
            if not a.native and a.hi is None and not isinstance(k, bool) and (isinstance(k, int) or isinstance(k, Sym) and k.sort == "int"):
                n = s_nseg(a.p, a.sep)
                i = eng.toint(k)
                i = z3.simplify(z3.If(i >= 0, i, n + i))
                st = eng.raise_if(st.assume(n >= 1), z3.Or(i < 0, i >= n), IndexError)
                return [] if st is None else [(st.assume(kind(s_segat(a.p, a.sep, i)) == KS), Sym("V", s_segat(a.p, a.sep, i)))]
        if hasattr(a, "getitem"):
            return a.getitem(eng, st, a, k, node)
        if a is None:
            eng.raise_(st, Exc(TypeError))
            return []
        raise Unsupported("subscript of %r by %r" % (a, k), node)

    def seg_item(self, st, a, k):
        if k == 0:
            i = z3.IndexOf(a.p, a.sep, 0)
            return Sym("str", z3.If(i < 0, a.p, z3.SubString(a.p, 0, i)))
        if k == -1:
            return Sym("str", z3.Function("S_lastseg", StrS, StrS, StrS)(a.p, a.sep))
        raise Unsupported("segment index")

    def setitem(self, st, a, k, v, node):
        """[st]"""
        eng = self.eng
        if isinstance(a, Ref):
            o = st.heap[a.oid]
            if isinstance(o, DictObj):
                if isinstance(k, (str, int)):
                    s = st.copy()
                    s.heap[a.oid] = DictObj({**o.items, k: v})
                    return [s]
                if o.items and any(isinstance(x, Ref) for x in o.items.values()):
                    raise Unsupported("symbolic key in a record dict", node)
                vs = V
                if isinstance(v, SetVal) or isinstance(v, Ref) and isinstance(st.heap[v.oid], SetObj):
                    vs = SetS
                st = st.copy()
                st.heap[a.oid] = o = self.mapobj(st, o, vs)
            if isinstance(o, MapObj):
                st = self.hashable(st, k)
                if st is None:
                    return []
                kt = eng.toV(k)
                st = st.copy()
                births = list(o.births)
                idx = st.ghost.get("loopidx", ())
                for n in range(len(births)):
                    if n < len(idx):
                        births[n] = z3.If(o.dom[kt], births[n], z3.Store(births[n], kt, idx[n]))
                vs = o.val.sort().range()
                if vs == V and (o.dom.eq(EMPTY) or eng.recording) and isinstance(v, Ref) and isinstance(st.heap[v.oid], SetObj):
                    eng.map_sorts[a.oid] = SetS
                    o = MapObj(o.dom, fresh(z3.ArraySort(V, SetS), "val"), o.births)
                    vs = SetS
                vt = v.arr if isinstance(v, SetVal) and vs == SetS else self.mapval(st, v, vs)
                st.heap[a.oid] = MapObj(z3.Store(o.dom, kt, TRUE), z3.Store(o.val, kt, vt), births)
                return [st]
            if isinstance(o, ListObj) and isinstance(k, int):
                if -len(o.items) <= k < len(o.items):
                    it = list(o.items)
                    it[k] = v
                    s = st.copy()
                    s.heap[a.oid] = ListObj(it)
                    return [s]
                eng.raise_(st, Exc(IndexError))
                return []
            if hasattr(o, "setitem"):
                return o.setitem(eng, st, a, k, v, node)
        if hasattr(a, "setitem"):
            return a.setitem(eng, st, k, v, node)
        if isinstance(a, Sym) and a.sort == "V":
            eng.json_write(st, a, node)
            return []
        raise Unsupported("item assignment on %r" % (a,), node)

    def delitem(self, st, a, k, node):
        eng = self.eng
        if isinstance(a, Ref):
            o = st.heap[a.oid]
            if isinstance(o, DictObj) and isinstance(k, (str, int)):
                if k not in o.items:
                    eng.raise_(st, Exc(KeyError))
                    return []
                s = st.copy()
                s.heap[a.oid] = DictObj({x: y for x, y in o.items.items() if x != k})
                return [s]
            if isinstance(o, MapObj):
                kt = eng.toV(k)
                st = eng.raise_if(st, z3.Not(o.dom[kt]), KeyError)
                if st is None:
                    return []
                s = st.copy()
                s.heap[a.oid] = MapObj(z3.Store(o.dom, kt, z3.BoolVal(False)), o.val, o.births)
                return [s]
        if hasattr(a, "delitem"):
            return a.delitem(eng, st, k, node)
        if isinstance(a, Sym) and a.sort == "V":
            eng.json_write(st, a, node)
            return []
        raise Unsupported("del item of %r" % (a,), node)

    def slice(self, st, a, lo, hi, node):
        eng = self.eng
        if isinstance(a, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return [(st, a[lo:hi])]
        if isinstance(a, Opaque):
            return [(st, Opaque("slice"))]
        if isinstance(a, Sym) and a.sort == "str" or isinstance(a, str):
            t = eng.tostr(a)
            n = z3.Length(t)

            def idx(x, d):
                if x is None:
                    return d
                x = eng.toint(x)
                if z3.is_int_value(z3.simplify(x)):
                    c = z3.simplify(x).as_long()
                    x = z3.IntVal(c) if c >= 0 else n + c
                    return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x)) if c != 0 else z3.IntVal(0)
                y = z3.If(x < 0, n + x, x)
                return z3.If(y < 0, z3.IntVal(0), z3.If(y > n, n, y))
            if hi is None and lo is not None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                # s[len(p):] where s is p + rest
                ch = t.children()
                for k in range(1, len(ch)):
                    if z3.simplify(eng.toint(lo) - sum([z3.Length(x) for x in ch[:k]])).eq(z3.IntVal(0)):
                        return [(st, Sym("str", z3.Concat(*ch[k:]) if k < len(ch) - 1 else ch[k]))]
            i, j = idx(lo, z3.IntVal(0)), idx(hi, n)
            if z3.is_const(t) and not z3.is_string_value(t):
                from . import rx
                lg = rx.known_lang(st.pc).get(t.get_id())
                ab = rx.alphabet(lg) if lg is not None else None
                if ab is not None:
                    st = st.assume(z3.InRe(z3.SubString(t, i, z3.If(j > i, j - i, z3.IntVal(0))), ab))
            return [(st, Sym("str", z3.SubString(t, i, z3.If(j > i, j - i, z3.IntVal(0)))))]
        if isinstance(a, Ref) and isinstance(st.heap[a.oid], ListObj) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            s = st.copy()
            return [(s, eng.alloc(s, ListObj(st.heap[a.oid].items[lo:hi])))]
        if isinstance(a, SegList) and a.hi is None and (lo is None or isinstance(lo, int) and lo == 0) and hi is not None:
            return [(st, SegList(a.p, a.sep, a.native, hi))]
        if isinstance(a, SegList) and not a.native and a.hi is None and hi is None and isinstance(lo, (int, Sym)):
            l = eng.toint(lo)
            out = []
            y, n = eng.fork(st, l >= 0)
            if n is not None:
                raise Unsupported("slice from the end", node)
            return [(y, SegTail(a.p, a.sep, l))]
        if hasattr(a, "slice"):
            return a.slice(eng, st, lo, hi, node)
        if isinstance(a, Sym) and a.sort == "V" and not eng.native and all(x is None or isinstance(x, int) for x in (lo, hi)) and eng.feasible(st, kind(a.t) != KS) is False:
            u = z3.Function("str_slice_%s_%s" % (lo, hi), V, V)(a.t)
            return [(st.assume(kind(u) == KS), Sym("V", u))]
        if isinstance(a, Sym) and a.sort == "V" and isinstance(lo, int) and lo >= 0 and hi is None and eng.feasible(st, kind(a.t) != KL) is False:
            s = st.copy()
            n = z3.If(jlen(a.t) > lo, jlen(a.t) - lo, z3.IntVal(0))
            o = AccList(fresh(V_.SetS, "tail"), n, (), self.newseq(s, n, lambda j: at(a.t, j + lo)))
            for f in o.seqfacts():
                s.fact_(f)
            return [(s, eng.alloc(s, o))]
        raise Unsupported("slice of %r" % (a,), node)

    # ----- comprehensions -----
    def comprehension(self, st, node, what):
        eng = self.eng
        if len(node.generators) != 1:
            raise Unsupported("nested comprehension", node)
        g = node.generators[0]
        out = []
        for s0, it in eng.ev(g.iter, st):
            for s1, x in eng.split(s0, it):
                items = self.concrete_items(s1, x)
                if items is not None:
                    out += self.comp_concrete(s1, node, g, items, what)
                else:
                    out += self.comp_symbolic(s1, node, g, x, what)
        return out

    def comp_concrete(self, st, node, g, items, what):
        eng = self.eng
        cur = [(st, [])]
        saved = dict(st.env)
        for x in items:
            nxt = []
            for s, acc in cur:
                for s1 in eng.assign(s, g.target, x):
                    ok, no = [s1], []
                    for c in g.ifs:
                        o2 = []
                        for s2 in ok:
                            t, f = eng.cond(c, s2)
                            o2 += t
                            no += f
                        ok = o2
                    for s2 in ok:
                        if what == "dict":
                            for s3, (k, v) in eng.evs([node.key, node.value], s2):
                                nxt.append((s3, acc + [(k, v)]))
                        else:
                            for s3, v in eng.ev(node.elt, s2):
                                nxt.append((s3, acc + [v]))
                    nxt += [(s2, acc) for s2 in no]
            cur = nxt
            eng.limit(cur)
        out = []
        for s, acc in cur:
            s = s.copy()
            s.env = dict(saved)
            if what == "set":
                a = EMPTY
                for x in acc:
                    a = z3.Store(a, eng.toV(x), TRUE)
                out.append((s, eng.alloc(s, SetObj(a))))
            elif what == "dict":
                out.append((s, eng.alloc(s, DictObj(dict(acc)))))
            else:
                out.append((s, eng.alloc(s, ListObj(acc))))
        return out

    def comp_symbolic(self, st, node, g, x, what):
        """Image of a symbolic sequence: evaluated once for an arbitrary element."""
        eng = self.eng
        w = self.view(st, x, node)
        if w is None:
            raise Unsupported("comprehension over %r" % (x,), node)
        st = w.st
        from .loops import mark
        born = mark()
        i = fresh("int", "ci")
        s = st.copy()
        s.assume_(z3.And(0 <= i, i < w.n))
        base = len(s.pc)
        rows = []    # (condition, value or None)
        for s1 in eng.assign(s, g.target, w.elem(i)):
            ok, no = [s1], []
            for c in g.ifs:
                o2 = []
                for s2 in ok:
                    t, f = eng.cond(c, s2)
                    o2 += t
                    no += f
                ok = o2
            for s2 in ok:
                if what == "dict":
                    rows += [(s3, kv) for s3, kv in eng.evs([node.key, node.value], s2)]
                else:
                    rows += [(s3, v) for s3, v in eng.ev(node.elt, s2)]
        ok_rows = []
        for s3, v in rows:
            rel = list(s3.pc[base:])
            for n in V_.symbols(rel):
                if "!" in n and n != i.decl().name():
                    try:
                        if int(n.rsplit("!", 1)[1]) > born:
                            raise Unsupported("comprehension with intermediate values", node)
                    except ValueError:
                        pass
            ok_rows.append((z3.And(*rel) if rel else TRUE, v))
        st = st.copy()
        if what == "gen" or what in ("list", "set", "dict"):
            return [(st, CompV(w, i, ok_rows, what).materialise(eng, st))] if what != "gen" else [(st, CompV(w, i, ok_rows, what))]
        raise Unsupported("comprehension", node)

    # ----- generators -----
    def run_generator(self, st, f):
        eng = self.eng
        st = st.copy()
        r = eng.alloc(st, ListObj())
        st.env["$yield"] = r
        outs = eng.block(f.node.body, st)
        return [("ret", s, r) for k, s, v in outs]

    def do_yield(self, st, node):
        eng = self.eng
        out = []
        if isinstance(node, ast.YieldFrom):
            for s, v in eng.ev(node.value, st):
                for s2, _ in self.augop(s, "Add", st.env["$yield"], v, node):
                    out.append(("norm", s2, None))
            return out
        for s, v in (eng.ev(node.value, st) if node.value is not None else [(st, None)]):
            if eng.on_yield is not None:
                out += [("norm", s2, None) for s2 in eng.on_yield(eng, s, v, node)]
                continue
            for s2, _ in self.list_append(s, st.env["$yield"], v):
                out.append(("norm", s2, None))
        return out

    def list_append(self, st, r, v):
        o = st.heap[r.oid]
        s = st.copy()
        if isinstance(o, ListObj):
            s.heap[r.oid] = ListObj(o.items + (v,))
        else:
            s.heap[r.oid] = self.addto(o, self.eng.toV(v), s.ghost.get("loopidx", ()))
        return [(s, None)]

    # ----- dispatch -----
    def call_ext(self, st, name, args, kwargs, node):
        eng = self.eng
        eng.used_ext.add(name)
        if name in eng.ext:
            return eng.ext[name](eng, st, args, kwargs, node)
        m = getattr(self.X, "x_" + name.replace(".", "_"), None)
        if m is not None:
            out = []
            for s, a in split_all(eng, st, args):
                out += m(s, a, kwargs, node)
            return out
        for pre in ("logging.",):
            if name.startswith(pre):
                return [(st, Opaque(name))]
        raise Unsupported("external call " + name, node)

    def call_method(self, st, recv, name, args, kwargs, node):
        eng = self.eng
        out = []
        for s, a in split_all(eng, st, args):
            out += self.X.method(s, recv, name, a, kwargs, node)
        return out


class CompV:
    def __init__(self, view, i, rows, what):
        self.view, self.i, self.rows, self.what = view, i, rows, what

    def image(self, eng, st):
        """Array of the values; facts are added to st."""
        w, i = self.view, self.i
        if len(self.rows) == 0:
            return EMPTY
        arr = fresh(SetS, "img")
        pos = z3.Function("imgpos!%d" % next(V_._cnt), V, IntS)
        j = z3.Int("j")
        y = z3.Const("y", V)
        dis = []
        for c, v in self.rows:
            vt = eng.toV(v)
            cj, vj = z3.substitute(c, (i, j)), z3.substitute(vt, (i, j))
            body = z3.Implies(z3.And(0 <= j, j < w.n, cj), arr[vj])
            p = w.patterns(j)
            st.fact_(z3.ForAll([j], body, patterns=p) if p else z3.ForAll([j], body))
            cy, vy = z3.substitute(c, (i, pos(y))), z3.substitute(vt, (i, pos(y)))
            dis.append(z3.And(0 <= pos(y), pos(y) < w.n, cy, vy == y))
        st.fact_(z3.ForAll([y], z3.Implies(arr[y], z3.Or(*dis)), patterns=[arr[y]]))
        return arr

    def materialise(self, eng, st):
        if self.what == "dict":
            return self.mapping(eng, st)
        arr = self.image(eng, st)
        if self.what == "set":
            return eng.alloc(st, SetObj(arr))
        n = fresh("int", "len")
        x = z3.Const("x", V)
        st.fact_(z3.And(n >= 0, n <= self.view.n))
        st.fact_(z3.ForAll([x], z3.Implies(arr[x], n > 0), patterns=[arr[x]])) if not z3.eq(arr, EMPTY) else None
        wt = fresh("V", "w")
        st.fact_(z3.Implies(n > 0, arr[wt]))
        if len(self.rows) == 1 and getattr(eng, "counting", False) and self.view.patterns(self.i):
            # the positions of the first and the second element
            c, v = self.rows[0]
            q1, q2, j = fresh("int", "q"), fresh("int", "q"), z3.Int("j")
            at = lambda q: z3.And(0 <= q, q < self.view.n, z3.substitute(c, (self.i, q)))
            val = lambda q: z3.substitute(eng.toV(v), (self.i, q))
            first = z3.Function("list_first", V_.SetS, IntS, V)(arr, n)
            st.fact_(z3.And(z3.Implies(n >= 1, z3.And(at(q1), first == val(q1), arr[val(q1)])), z3.Implies(n >= 2, z3.And(at(q2), q1 < q2, arr[val(q2)]))))
            st.fact_(z3.ForAll([j], z3.Implies(at(j), z3.And(n >= 1, q1 <= j, z3.Implies(j != q1, z3.And(n >= 2, q2 <= j)))), patterns=self.view.patterns(j)))
        return eng.alloc(st, AccList(arr, n))

    def mapping(self, eng, st):
        """Dictionary: for equal keys the last one counts."""
        if not self.rows:
            return eng.alloc(st, DictObj({}))
        w, i = self.view, self.i
        dom = fresh(SetS, "keys")
        sets = all(isinstance(v, SetVal) for _, (k, v) in self.rows)
        val = fresh(z3.ArraySort(V, SetS if sets else V), "vals")
        pos = z3.Function("keypos!%d" % next(V_._cnt), V, IntS)
        j, y = z3.Int("j"), z3.Const("y", V)
        dis = []
        for c, (k, v) in self.rows:
            kt, vt = eng.toV(k), v.arr if sets else eng.toV(v)
            cj, kj = z3.substitute(c, (i, j)), z3.substitute(kt, (i, j))
            body = z3.Implies(z3.And(0 <= j, j < w.n, cj), z3.And(dom[kj], j <= pos(kj)))
            p = w.patterns(j)
            st.fact_(z3.ForAll([j], body, patterns=p) if p else z3.ForAll([j], body))
            cy, ky, vy = [z3.substitute(t, (i, pos(y))) for t in (c, kt, vt)]
            dis.append(z3.And(0 <= pos(y), pos(y) < w.n, cy, ky == y, val[y] == vy))
        st.fact_(z3.ForAll([y], z3.Implies(dom[y], z3.Or(*dis)), patterns=[dom[y]]))
        return eng.alloc(st, MapObj(dom, val))

    def quant(self, eng, st, want):
        """any (want=True) / all: formula."""
        w, i = self.view, self.i
        j = fresh("int", "qj")
        tcond = []
        for c, v in self.rows:
            if isinstance(v, bool):
                b = z3.BoolVal(v)
            elif isinstance(v, Sym) and v.sort == "bool":
                b = v.t
            else:
                raise Unsupported("any/all over non-boolean")
            tcond.append((c, b))
        return tcond


class SetVal:
    """A set value stored in a map (read only through this value)."""

    def __init__(self, arr):
        self.arr = arr

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        a, b = eng.fork(st, card(self.arr) > 0)
        return [(s, r) for s, r in ((a, True), (b, False)) if s is not None]


def split_all(eng, st, args):
    cur = [(st, [])]
    for a in args:
        nxt = []
        for s, acc in cur:
            for s2, x in eng.split(s, a):
                nxt.append((s2, acc + [x]))
        cur = nxt
    return cur


def vconcat(ts):
    """Abstract concatenation: an uninterpreted function of its pieces; concatenations of concatenations are one, neighbouring literals too."""
    flat = []
    for t in ts:
        flat += t.children() if z3.is_app(t) and t.decl().name().startswith("str_concat") else [t]
    text = {c.get_id(): x for x, c in V_._lits.items()}
    out = []
    for t in flat:
        if out and t.get_id() in text and out[-1].get_id() in text:
            out[-1] = V_.lit(text[out[-1].get_id()] + text[t.get_id()])
            text[out[-1].get_id()] = [x for x, c in V_._lits.items() if c.eq(out[-1])][0]
        else:
            out.append(t)
    return z3.Function("str_concat%d" % len(out), *([V] * (len(out) + 1)))(*out) if len(out) > 1 else out[0]


def State0(eng):
    from .engine import State
    return State(pc=(z3.BoolVal(False),))


def int_str(n):
    """Decimal text of an int term."""
    return z3.StringVal(str(n.as_long())) if z3.is_int_value(n) else V_.S_dec(n)


def neg(t):
    return (not t) if isinstance(t, bool) else Sym("bool", z3.Not(t))


def wrap(t):
    return t if isinstance(t, bool) else Sym("bool", t)


def has_q(t):
    from .engine import has_quant
    return has_quant(t)


def ok_pat(arr):
    """Arrays usable in patterns: no interpreted ite/store/map at the top is fine for z3, but avoid lambdas."""
    return not z3.is_quantifier(arr)
