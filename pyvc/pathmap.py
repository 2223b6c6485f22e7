"""The digest -> [paths] blocks of an inventory (manifest, state of each version) as one mutable heap object.

Every block is a map from digests to a set of paths: lists of paths are taken to be free of repetitions, which appending has to
respect (an obligation at every append).  Reading a list out of a block gives a reference to that list, as in Python: what is done
to it is done to the block."""
import z3

from . import values as V_
from .values import V, Sym, Opaque, Bound, Exc, Ref, Unsupported, DictObj, ListObj, AccList, SetObj, fresh, lit, SetS, EMPTY, kind, KS

MemS = z3.ArraySort(V, SetS)
SMemS = z3.ArraySort(V, MemS)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
NOMEM = z3.K(V, EMPTY)


class Maps:
    """mdom, mmem: manifest; sdom, smem: state by version; vers: versions; hasst: versions with a state block."""
    __slots__ = ("mdom", "mmem", "sdom", "smem", "vers", "hasst", "gen", "frozen")

    def __init__(self, mdom, mmem, sdom, smem, vers, hasst, gen=0):
        self.mdom, self.mmem, self.sdom, self.smem, self.vers, self.hasst, self.gen = mdom, mmem, sdom, smem, vers, hasst, gen

    NAMES = ("mdom", "mmem", "sdom", "smem", "vers", "hasst")

    def parts(self):
        return tuple(getattr(self, n) for n in self.NAMES)

    def same(self, o):
        return all(a.eq(b) for a, b in zip(self.parts(), o.parts()))

    def havoc(self, eng):
        return Maps(*[fresh(p.sort(), n) for n, p in zip(self.NAMES, self.parts())], gen=self.gen + 1)

    def merge(self, eng, g, o):
        return Maps(*[a if a.eq(b) else z3.If(g, a, b) for a, b in zip(self.parts(), o.parts())], gen=self.gen if self.gen == o.gen else max(self.gen, o.gen) + 1)

    def with_(self, **kw):
        return Maps(*[kw.get(n, getattr(self, n)) for n in self.NAMES], gen=kw.get("gen", self.gen))

    def dom(self, v):
        return self.mdom if v is None else self.sdom[v]

    def mem(self, v):
        return self.mmem if v is None else self.smem[v]

    def put(self, v, dom, mem, gen=None):
        g = self.gen if gen is None else gen
        if v is None:
            return self.with_(mdom=dom, mmem=mem, gen=g)
        return self.with_(sdom=z3.Store(self.sdom, v, dom), smem=z3.Store(self.smem, v, mem), gen=g)


def newmaps(eng, st, name="m"):
    S = Maps(fresh(SetS, name + "dom"), fresh(MemS, name + "mem"), fresh(MemS, name + "sdom"), fresh(SMemS, name + "smem"), fresh(SetS, name + "versions"), fresh(SetS, name + "hasstate"))
    return eng.alloc(st, S), S


class Proxy:
    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def S(self, st):
        return st.heap[self.ref.oid]

    def same_val(self, o):
        return type(o) is type(self) and all(same(a, b) for a, b in zip(self.key_(), o.key_()))


def same(a, b):
    return a.eq(b) if z3.is_expr(a) and z3.is_expr(b) else a is b or (not z3.is_expr(a) and not z3.is_expr(b) and a == b)


class PMap(Proxy):
    """A block: the manifest (v None) or the state of version v."""
    types = ["builtins.dict"]

    def __init__(self, ref, v=None):
        self.ref, self.v = ref, v

    def key_(self):
        return self.ref, self.v

    def truth(self, eng, st):
        a, b = eng.fork(st, V_.card(self.S(st).dom(self.v)) > 0)
        return [(s, r) for s, r in ((a, True), (b, False)) if s is not None]

    def len_(self, eng, st, node):
        st = st.copy()
        d, w, x = self.S(st).dom(self.v), fresh("V", "w"), z3.Const("x", V)
        n = fresh("int", "ndigests")
        st.fact_(z3.And(n >= 0, z3.Implies(n >= 1, d[w]), z3.ForAll([x], z3.Implies(d[x], n >= 1), patterns=[d[x]])))
        return [(st, Sym("int", n))]

    def contains(self, eng, st, x, node):
        st = eng.B.hashable(st, x)
        return [] if st is None else [(st, self.S(st).dom(self.v)[eng.toV(x)])]

    def getitem(self, eng, st, a, k, node):
        st = eng.B.hashable(st, k)
        if st is None:
            return []
        kt = eng.toV(k)
        st = eng.raise_if(st, z3.Not(self.S(st).dom(self.v)[kt]), KeyError)
        return [] if st is None else [(st, PList(self.ref, self.v, kt, self.S(st).gen))]

    def setitem(self, eng, st, k, x, node):
        st = eng.B.hashable(st, k)
        if st is None:
            return []
        kt = eng.toV(k)
        out = []
        for st, x in eng.split(st, x):
            S = self.S(st)
            if isinstance(x, PList):
                x.check(eng, st, node)
                if x.ref == self.ref and same(x.v, self.v) and eng.feasible(st, x.k != kt) is False:
                    out.append(st)
                    continue
                raise Unsupported("a list of one block stored in another place", node)
            arr = elements(eng, st, x, node)
            st = st.copy()
            st.heap[self.ref.oid] = S.put(self.v, z3.Store(S.dom(self.v), kt, TRUE), z3.Store(S.mem(self.v), kt, arr), S.gen + 1)
            if isinstance(x, Ref):
                st.heap[x.oid] = Alias(PList(self.ref, self.v, kt, S.gen + 1))
            out.append(st)
        return out

    def delitem(self, eng, st, k, node):
        kt = eng.toV(k)
        S = self.S(st)
        st = eng.raise_if(st, z3.Not(S.dom(self.v)[kt]), KeyError)
        if st is None:
            return []
        st = st.copy()
        st.heap[self.ref.oid] = S.put(self.v, z3.Store(S.dom(self.v), kt, FALSE), z3.Store(S.mem(self.v), kt, EMPTY), S.gen + 1)
        return [st]

    def method(self, eng, st, name, a, kw, node):
        if name in ("keys", "values", "items"):
            return [(st, PView(self, name))]
        if name == "get" and a:
            default = a[1] if len(a) > 1 else None
            out = []
            for s, t in self.contains(eng, st, a[0], node):
                y, n = eng.fork(s, t)
                if y is not None:
                    out += self.getitem(eng, y, self, a[0], node)
                if n is not None:
                    out.append((n, default))
            return out
        if name == "setdefault" and len(a) == 2:
            out = []
            for s, t in self.contains(eng, st, a[0], node):
                y, n = eng.fork(s, t)
                if y is not None:
                    out += self.getitem(eng, y, self, a[0], node)
                if n is not None:
                    for s2 in self.setitem(eng, n, a[0], a[1], node):
                        out += self.getitem(eng, s2, self, a[0], node)
            return out
        if name == "pop":
            out = []
            for s, t in self.contains(eng, st, a[0], node):
                y, n = eng.fork(s, t)
                if y is not None:
                    arr = self.S(y).mem(self.v)[eng.toV(a[0])]
                    for s2 in self.delitem(eng, y, a[0], node):
                        s2 = s2.copy()
                        out.append((s2, eng.alloc(s2, aslist(eng, s2, arr))))
                if n is not None:
                    if len(a) > 1:
                        out.append((n, a[1]))
                    else:
                        eng.raise_(n, Exc(KeyError))
            return out
        raise Unsupported("method %s of a block" % name, node)

    def view(self, eng, st, node):
        return PView(self, "keys").view(eng, st, node)

    def asset(self, eng, st):
        return self.S(st).dom(self.v)

    def deepcopy(self, eng, st):
        return [(st, Snapshot(self.S(st).dom(self.v), self.S(st).mem(self.v)))]

    def eq_term(self, eng, st, b):
        return None


class Snapshot:
    """A copy of a block, not yet part of an inventory."""
    types = ["builtins.dict"]

    def __init__(self, dom, mem):
        self.dom, self.mem = dom, mem

    def same_val(self, o):
        return isinstance(o, Snapshot) and o.dom.eq(self.dom) and o.mem.eq(self.mem)

    def truth(self, eng, st):
        a, b = eng.fork(st, V_.card(self.dom) > 0)
        return [(s, r) for s, r in ((a, True), (b, False)) if s is not None]


def elements(eng, st, x, node):
    """Set of the elements of a list; it has to be free of repetitions."""
    if isinstance(x, Ref):
        o = st.heap[x.oid]
        if isinstance(o, ListObj):
            a = EMPTY
            for y in o.items:
                t = eng.toV(y)
                if not a.eq(EMPTY):
                    eng.prove(st, z3.Not(a[t]), "no path twice in one list", node)
                a = z3.Store(a, t, TRUE)
            return a
        if isinstance(o, AccList):
            return o.arr
    raise Unsupported("a block entry that is %r" % (x,), node)


def aslist(eng, st, arr):
    """A list object with the elements of arr."""
    n, w, x = fresh("int", "len"), fresh("V", "w"), z3.Const("x", V)
    st.fact_(z3.And(n >= 0, z3.Implies(n >= 1, arr[w]), z3.ForAll([x], z3.Implies(arr[x], n >= 1), patterns=[arr[x]])))
    return AccList(arr, n)


class PList(Proxy):
    """The list stored under digest k of a block."""
    types = ["builtins.list"]

    def __init__(self, ref, v, k, gen):
        self.ref, self.v, self.k, self.gen = ref, v, k, gen

    def key_(self):
        return self.ref, self.v, self.k

    def check(self, eng, st, node):
        if self.gen is not None and self.S(st).gen != self.gen:
            raise Unsupported("a list of a block used after entries of the block were replaced", node)

    def arr(self, st):
        return self.S(st).mem(self.v)[self.k]

    def contains(self, eng, st, x, node):
        self.check(eng, st, node)
        return [(st, self.arr(st)[eng.toV(x)])]

    def truth(self, eng, st):
        out = []
        for s, n in self.len_(eng, st, None):
            a, b = eng.fork(s, n.t > 0)
            out += [(x, r) for x, r in ((a, True), (b, False)) if x is not None]
        return out

    def len_(self, eng, st, node):
        self.check(eng, st, node)
        st = st.copy()
        a = self.arr(st)
        n, w1, w2 = fresh("int", "len"), fresh("V", "w"), fresh("V", "w")
        x, y = z3.Consts("x y", V)
        st.fact_(z3.And(n >= 0, z3.Implies(n >= 1, a[w1]), z3.Implies(n >= 2, z3.And(a[w2], w1 != w2)),
                        z3.ForAll([x], z3.Implies(a[x], z3.And(n >= 1, z3.Implies(n == 1, x == w1), z3.Implies(z3.And(n == 2, x != w1), x == w2), z3.Implies(x != w1, n >= 2))), patterns=[a[x]])))
        return [(st, Sym("int", n))]

    def getitem(self, eng, st, a, k, node):
        self.check(eng, st, node)
        if not isinstance(k, int) or k not in (0, -1):
            raise Unsupported("index %r into a list of a block" % (k,), node)
        out = []
        for s, n in self.len_(eng, st, node):
            s = eng.raise_if(s, n.t < 1, IndexError)
            if s is not None:
                w = fresh("V", "first")
                out.append((s.assume(self.arr(s)[w]), Sym("V", w)))
        return out

    def write(self, st, arr):
        st = st.copy()
        S = self.S(st)
        st.heap[self.ref.oid] = S.put(self.v, S.dom(self.v), z3.Store(S.mem(self.v), self.k, arr))
        return st

    def setall(self, eng, st, v, node):
        """The whole list is replaced in place."""
        self.check(eng, st, node)
        it = eng.B.concrete_items(st, v)
        if it is not None:
            st = self.write(st, EMPTY)
            for x in it:
                st = self.add(eng, st, x, node)
            return [st]
        return [self.write(s, elements(eng, s, x, node)) for s, x in eng.split(st, v)]

    def add(self, eng, st, x, node):
        t = eng.toV(x)
        eng.prove(st, z3.Not(self.arr(st)[t]), "no path twice in one list", node)
        return self.write(st, z3.Store(self.arr(st), t, TRUE))

    def method(self, eng, st, name, a, kw, node):
        self.check(eng, st, node)
        if name == "append" and len(a) == 1:
            return [(self.add(eng, st, a[0], node), None)]
        if name == "insert" and len(a) == 2:
            return [(self.add(eng, st, a[1], node), None)]
        if name == "extend":
            it = eng.B.concrete_items(st, a[0])
            if it is not None:
                for x in it:
                    st = self.add(eng, st, x, node)
                return [(st, None)]
        if name == "remove":
            t = eng.toV(a[0])
            st = eng.raise_if(st, z3.Not(self.arr(st)[t]), ValueError)
            return [] if st is None else [(self.write(st, z3.Store(self.arr(st), t, FALSE)), None)]
        if name == "pop":
            out = []
            for s, n in self.len_(eng, st, node):
                s = eng.raise_if(s, n.t < 1, IndexError)
                if s is not None:
                    w = fresh("V", "popped")
                    s = s.assume(self.arr(s)[w])
                    out.append((self.write(s, z3.Store(self.arr(s), w, FALSE)), Sym("V", w)))
            return out
        if name == "copy":
            st = st.copy()
            return [(st, eng.alloc(st, aslist(eng, st, self.arr(st))))]
        if name == "clear":
            return [(self.write(st, EMPTY), None)]
        raise Unsupported("method %s of a list of a block" % name, node)

    def view(self, eng, st, node):
        self.check(eng, st, node)
        return eng.B.enum_set(st, self.arr(st))

    def asset(self, eng, st):
        self.check(eng, st, None)
        return self.arr(st)

    def aslist(self, eng, st):
        self.check(eng, st, None)
        return aslist(eng, st, self.arr(st))

    def eq_term(self, eng, st, b):
        return None

    def deepcopy(self, eng, st):
        st = st.copy()
        return [(st, eng.alloc(st, self.aslist(eng, st)))]


class Alias:
    """A list object that became the entry of a block."""

    def __init__(self, plist):
        self.plist = plist

    types = ["builtins.list"]

    def same(self, o):
        return isinstance(o, Alias) and self.plist.same_val(o.plist)

    def merge(self, eng, g, o):
        return self if self.same(o) else None

    def contains(self, eng, st, x, node):
        return self.plist.contains(eng, st, x, node)

    def getitem(self, eng, st, a, k, node):
        return self.plist.getitem(eng, st, a, k, node)

    def len_(self, eng, st, node):
        return self.plist.len_(eng, st, node)

    def method(self, eng, st, r, name, a, kw, node):
        return self.plist.method(eng, st, name, a, kw, node)


class PView:
    """keys(), values() or items() of a block."""

    def __init__(self, pm, what):
        self.pm, self.what = pm, what

    def same_val(self, o):
        return isinstance(o, PView) and o.what == self.what and o.pm.same_val(self.pm)

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def contains(self, eng, st, x, node):
        if self.what != "keys":
            raise Unsupported("in %s of a block" % self.what, node)
        return self.pm.contains(eng, st, x, node)

    def asset(self, eng, st):
        return self.pm.asset(eng, st) if self.what == "keys" else None

    def len_(self, eng, st, node):
        return self.pm.len_(eng, st, node)

    def view(self, eng, st, node):
        from .builtins_model import View
        S = st.heap[self.pm.ref.oid]
        w = eng.B.enum_set(st, S.dom(self.pm.v))
        if self.what == "keys":
            return w
        f = lambda i: PList(self.pm.ref, self.pm.v, w.elem(i).t, S.gen)
        g = f if self.what == "values" else (lambda i: (w.elem(i), f(i)))
        return View(w.st, w.n, g, term=w.term, pats=w._p)


class VersV(Proxy):
    """The versions block."""
    types = ["builtins.dict"]

    def __init__(self, ref):
        self.ref = ref

    def key_(self):
        return (self.ref,)

    def contains(self, eng, st, x, node):
        st = eng.B.hashable(st, x)
        return [] if st is None else [(st, self.S(st).vers[eng.toV(x)])]

    def getitem(self, eng, st, a, k, node):
        kt = eng.toV(k)
        st = eng.raise_if(st, z3.Not(self.S(st).vers[kt]), KeyError)
        return [] if st is None else [(st, VBlk(self.ref, kt))]

    def setitem(self, eng, st, k, x, node):
        """A new version block from a record: no state, or the state it has."""
        kt = eng.toV(k)
        if not (isinstance(x, Ref) and isinstance(st.heap[x.oid], DictObj)):
            raise Unsupported("a version block that is %r" % (x,), node)
        items = st.heap[x.oid].items
        st = st.copy()
        S = self.S(st)
        st.heap[self.ref.oid] = S.with_(vers=z3.Store(S.vers, kt, TRUE), hasst=z3.Store(S.hasst, kt, FALSE), sdom=z3.Store(S.sdom, kt, EMPTY), smem=z3.Store(S.smem, kt, NOMEM), gen=S.gen + 1)
        if "state" in items:
            return VBlk(self.ref, kt).setitem(eng, st, "state", items["state"], node)
        return [st]

    def method(self, eng, st, name, a, kw, node):
        if name == "get":
            default = a[1] if len(a) > 1 else None
            out = []
            for s, t in self.contains(eng, st, a[0], node):
                y, n = eng.fork(s, t)
                if y is not None:
                    out += self.getitem(eng, y, self, a[0], node)
                if n is not None:
                    out.append((n, default))
            return out
        if name == "keys":
            return [(st, self)]
        raise Unsupported("method %s of the versions block" % name, node)

    def view(self, eng, st, node):
        return eng.B.enum_set(st, self.S(st).vers)

    def asset(self, eng, st):
        return self.S(st).vers


class VBlk(Proxy):
    """A version block; only its state is modelled."""
    types = ["builtins.dict"]

    def __init__(self, ref, v):
        self.ref, self.v = ref, v

    def key_(self):
        return self.ref, self.v

    def contains(self, eng, st, x, node):
        return [(st, self.S(st).hasst[self.v] if x == "state" else fresh("bool", "present"))]

    def getitem(self, eng, st, a, k, node):
        if k != "state":
            st = eng.raise_if(st, fresh("bool", "absent"), KeyError)
            return [] if st is None else [(st, Opaque("version attribute"))]
        st = eng.raise_if(st, z3.Not(self.S(st).hasst[self.v]), KeyError)
        return [] if st is None else [(st, PMap(self.ref, self.v))]

    def setitem(self, eng, st, k, x, node):
        if k != "state":
            if not isinstance(k, str):
                raise Unsupported("attribute %r of a version" % (k,), node)
            return [st]
        out = []
        for st, x in eng.split(st, x):
            S = self.S(st)
            if isinstance(x, PMap):
                if x.ref == self.ref and same(x.v, self.v):
                    out.append(st)
                    continue
                raise Unsupported("one block shared by two versions", node)
            if isinstance(x, Snapshot):
                dom, mem = x.dom, x.mem
            elif isinstance(x, Ref) and isinstance(st.heap[x.oid], DictObj) and not st.heap[x.oid].items:
                dom, mem = EMPTY, NOMEM
            else:
                raise Unsupported("a state that is %r" % (x,), node)
            st = st.copy()
            st.heap[self.ref.oid] = S.put(self.v, dom, mem, S.gen + 1).with_(hasst=z3.Store(S.hasst, self.v, TRUE))
            out.append(st)
        return out

    def method(self, eng, st, name, a, kw, node):
        if name == "get":
            default = a[1] if len(a) > 1 else None
            out = []
            for s, t in self.contains(eng, st, a[0], node):
                y, n = eng.fork(s, t)
                if y is not None:
                    out += self.getitem(eng, y, self, a[0], node)
                if n is not None:
                    out.append((n, default))
            return out
        raise Unsupported("method %s of a version block" % name, node)
