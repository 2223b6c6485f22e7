"""Symbolic executor for the Python source of /repo: generates proof obligations, function by function.

Calls are replaced by the callee's contract when one is registered, otherwise by inlining the callee's current body.
Loops over symbolic data are cut with invariants (LoopSpec) plus an automatic per-iteration summary.
"""
import ast
import builtins
import time

import z3

from . import reg
from . import values as V_
from .values import (V, Sym, Opaque, UNDEF, Undef, Union, Ref, Func, ClassV, Ext, Bound, Exc, Inst, ListObj, DictObj, SetObj,
                     MapObj, AccList, JoinList, StarJoin, Unsupported, fresh, lit, IntS, BoolS, StrS, SetS, EMPTY,
                     KN, KB, KI, KF, KS, KL, KD, kind, jlen, at, mem, nk, key, kidx, has, get, iv, bv, sv, boxi, boxb, boxs, noneV, card, setof)

TRUE = z3.BoolVal(True)


class State:
    __slots__ = ("env", "heap", "pc", "facts", "ghost")

    def __init__(self, env=None, heap=None, pc=(), facts=(), ghost=None):
        self.env, self.heap, self.pc, self.facts, self.ghost = env or {}, heap or {}, pc, facts, ghost or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, self.facts, dict(self.ghost))

    def assume(self, f):
        """Copy of the state with f assumed on this path."""
        s = self.copy()
        s.assume_(f)
        return s

    def assume_(self, f):
        if z3.is_true(f):
            return
        if has_quant(f):
            b = fresh("bool", "path")
            self.pc = self.pc + (b,)
            self.facts = self.facts + (z3.Implies(b, f),)
        else:
            self.pc = self.pc + (f,)

    def fact_(self, f):
        """Definitional fact about fresh symbols: holds on every path."""
        self.facts = self.facts + (f,)


def conjuncts(f):
    return [y for x in f.children() for y in conjuncts(x)] if z3.is_and(f) else [f]


_hq = {}


def has_quant(t):
    i = t.get_id()
    if i in _hq and _hq[i][1].eq(t):
        return _hq[i][0]
    seen, stack, r = set(), [t], False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _hq[i] = (r, t)
    return r


class LoopSpec:
    """Invariant for a symbolic loop. match: substring of / exact source text of the iterable (or 'while').
    inv(c) -> list of (label, formula); havoc: {var: maker()} for variables whose type the engine cannot guess."""

    def __init__(self, match, inv=None, havoc=None, spec=None, sets=None, start=None, end=None, depth=None):
        self.depth = depth        # only loops nested in this many others
        # start(c): changes c.st at the start of a round (an object of its own per element); end(c) -> obligations at its end
        self.start, self.end = start, end
        self.match, self.inv, self.havoc, self.sets = match, inv, havoc or {}, sets or {}


class LoopCtx:
    def __init__(self, eng, st, entry, i, n, it, outer):
        self.eng, self.st, self.entry, self.i, self.n, self.it, self.outer = eng, st, entry, i, n, it, outer

    def raw(self, name):
        if name not in self.st.env:
            raise LostAnnotation("variable %s of the loop annotation is not there" % name)
        return self.st.env[name]

    def v(self, name):
        """Scalar variable as a term."""
        x = self.raw(name)
        if isinstance(x, Sym):
            return x.t
        return self.eng.toV(x, self.st) if isinstance(x, str) or x is None else x

    def only(self, what):
        """The one local variable (or list of strings) that the loop modifies: annotations by role, not by name."""
        if what == "joinlist":
            xs = [self.st.heap[o] for o in self.modobjs if isinstance(self.st.heap.get(o), JoinList)]
        else:
            xs = [self.st.env[n] for n in sorted(self.mods) if n in self.entry.env and self.eng.B.isstr(self.st.env[n])]
        if len(xs) != 1:
            raise LostAnnotation("%d variables of kind %s are modified" % (len(xs), what))
        return xs[0] if what == "joinlist" else self.eng.tostr(xs[0])

    def texts(self):
        """The local variables that the loop modifies and that hold a string, as terms."""
        out = []
        for n in sorted(self.mods):
            x = self.st.env.get(n) if n in self.entry.env else None
            if isinstance(x, str) or isinstance(x, Sym) and x.sort in ("V", "str"):
                out.append(self.eng.toV(x, self.st))
        return out

    def the(self, *classes):
        """The one container of the given classes that the loop modifies."""
        xs = [self.st.heap[o] for o in self.modobjs if isinstance(self.st.heap.get(o), classes)]
        if len(xs) != 1:
            raise LostAnnotation("%d containers of kind %s are modified" % (len(xs), "/".join(k.__name__ for k in classes)))
        return xs[0]

    def obj(self, name):
        x = self.raw(name)
        if not isinstance(x, Ref):
            raise LostAnnotation("%s is not a container" % name)
        return self.st.heap[x.oid]

    def arr(self, name):
        """Array(V,Bool) for a set, an accumulating list or the domain of a map."""
        return self.eng.as_setarr(self.obj(name))

    def val(self, name):
        o = self.obj(name)
        if isinstance(o, DictObj) and not o.items:
            return fresh(z3.ArraySort(V, V), "novals")
        if not isinstance(o, MapObj):
            raise LostAnnotation("%s is not a map" % name)
        return o.val

    def birth(self, name, level=0):
        o = self.obj(name)
        b = getattr(o, "births", ())
        if len(b) > level:
            return b[level]
        return z3.K(V, z3.IntVal(-1))


def const_arith(node):
    """Value of an arithmetic expression over number literals (None if it is something else)."""
    if isinstance(node, ast.Constant) and type(node.value) in (int,):
        return node.value
    if isinstance(node, ast.BinOp):
        a, b = const_arith(node.left), const_arith(node.right)
        if a is not None and b is not None:
            op = type(node.op)
            if op is ast.Mult:
                return a * b
            if op is ast.Add:
                return a + b
            if op is ast.Sub:
                return a - b
            if op is ast.Pow and 0 <= b < 64:
                return a ** b
            if op is ast.LShift and 0 <= b < 64:
                return a << b
            if op is ast.FloorDiv and b:
                return a // b
    return None


class LostAnnotation(Exception):
    pass


class Obligation:
    __slots__ = ("name", "hyps", "goal", "task", "line", "soft", "result", "detail", "backend", "time", "model_of")

    def __init__(self, name, hyps, goal, task, line, soft=False, model_of=None):
        self.name, self.hyps, self.goal, self.task, self.line, self.soft = name, hyps, goal, task, line, soft
        self.result = self.detail = self.backend = None
        self.time = 0.0
        self.model_of = model_of


class Engine:
    def __init__(self, repo, mode="plain"):
        self.repo = repo
        self.frozen = None        # name of the obligation violated by a change of a JSON input
        self.mode = mode               # A accept / B reject / C total / plain
        self.obls = []
        self.sink = []                 # raise outcomes of the expression being evaluated
        self.recording = 0             # >0: discovery run, obligations are not recorded
        self.on_yield = None           # what the consumer of a generator under contract does with a value
        self.map_sorts = {}            # heap cell -> sort of the values of a dictionary filled in a loop
        self.next_oid = 1
        self.summaries = {}            # qual -> callable(eng, st, args: dict, node) -> [(st, val)] (raises via eng.raise_)
        self.ext = {}                  # dotted name -> callable(eng, st, args, kwargs, node) -> [(st,val)]
        self.loops = {}                # qual -> [LoopSpec]
        self.mod_cache = {}            # loop node id -> modified names/cells
        self.task = ""
        self.inlined = set()
        self.used_summaries = set()
        self.used_ext = set()
        self.lost = []                 # loops executed without a matching annotation
        self.depth = 0
        self.split_returns = False     # keep the returns of the function under verification apart
        self.split_paths = False       # never join paths
        self.opaque_items = False      # what a list holds beyond plain values is not followed (only how many)
        self.native = False            # strings native by default
        self.module_globals = {}       # (mod, name) -> value override
        self.feas_calls = 0
        self.feas_memo = {}
        self.funcstack = []
        self.loopstack = []
        self.max_states = 400
        self.on_model = None
        from . import builtins_model
        self.B = builtins_model.Builtins(self)
        from . import files
        files.install(self)

    # ---------- helpers ----------
    def alloc(self, st, obj):
        r = Ref(self.next_oid)
        self.next_oid += 1
        st.heap[r.oid] = obj
        return r

    def prove(self, st, goal, name, node=None, soft=False, model_of=None):
        if self.recording:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(z3.simplify(goal)) and not has_quant(goal):
            o = Obligation(name, (), goal, self.task, getattr(node, "lineno", None), soft)
            o.result, o.backend = "proved", "simplifier"
            self.obls.append(o)
            return
        self.obls.append(Obligation(name, st.facts + st.pc, goal, self.task, getattr(node, "lineno", None), soft, model_of))

    def json_write(self, st, v, node):
        """A change of a JSON value that the contract treats as immutable."""
        if self.frozen is None:
            raise Unsupported("change of a JSON value", node)
        self.unreachable(st, self.frozen, node)

    def unreachable(self, st, name, node=None):
        self.prove(st, z3.BoolVal(False), name, node)

    def feasible(self, st, cond=None):
        pc = [c for c in st.pc]
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                return True
            pc.append(cond)
        k = frozenset(x.get_id() for x in pc)
        if k in self.feas_memo:
            return self.feas_memo[k][0]
        self.feas_calls += 1
        if cond is not None and V_.stringy(cond) and reg.contradictory([y for x in pc if V_.stringy(x) for y in conjuncts(x)]):
            self.feas_memo[k] = (False, pc)
            return False
        s = z3.Solver()
        s.set("timeout", 150)
        facts = [f for f in st.facts[-60:] if not has_quant(f)]
        use = pc
        if not (cond is not None and V_.stringy(cond)) and not self.native:
            use = [x for x in pc if not V_.stringy(x)]
            facts = [x for x in facts if not V_.stringy(x)]
        use = [x for x in use if not V_.stringy(x) or not V_.big_regex(x)]
        s.add(*[c for c in use if not has_quant(c)])
        s.add(*facts)
        s.add(*V_.ground(use))
        s.add(*V_.lit_axioms(V_.symbols(pc)))
        r = s.check() != z3.unsat
        self.feas_memo[k] = (r, pc)
        return r

    def possible(self, st, cond):
        """As feasible, but with the quantified facts and the background axioms (slower)."""
        if not self.feasible(st, cond):
            return False
        k = ("deep", frozenset(x.get_id() for x in st.pc), cond.get_id())
        if k in self.feas_memo:
            return self.feas_memo[k][0]
        s = z3.Solver()
        s.set("timeout", 800)
        s.set("smt.mbqi", False)
        hs = list(st.pc) + list(st.facts) + [cond]
        s.add(*hs)
        s.add(*V_.background(hs))
        r = s.check() != z3.unsat
        self.feas_memo[k] = (r, st.pc, cond)
        return r

    def raise_(self, st, exc):
        self.sink.append((st, exc))

    def raise_if(self, st, cond, exc):
        """Fork: exc where cond holds; returns the state where it does not (or None)."""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        c = z3.simplify(cond)
        if z3.is_false(c):
            return st
        if self.feasible(st, cond):
            self.raise_(st.assume(cond), Exc(exc) if isinstance(exc, type) else exc)
        if z3.is_true(c):
            return None
        s2 = st.assume(z3.Not(cond))
        return s2 if self.feasible(s2) else None

    def fork(self, st, cond):
        """(state where cond, state where not cond); None when infeasible."""
        if isinstance(cond, bool):
            return (st, None) if cond else (None, st)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a = self.feasible(st, cond)
        b = self.feasible(st, z3.Not(cond))
        return (st.assume(cond) if a else None), (st.assume(z3.Not(cond)) if b else None)

    # ---------- conversions ----------
    def toV(self, x, st=None):
        if isinstance(x, Sym):
            if x.sort == "V":
                return x.t
            return {"int": boxi, "bool": boxb, "str": boxs}[x.sort](x.t)
        if x is None:
            return noneV
        if isinstance(x, bool):
            return boxb(z3.BoolVal(x))
        if isinstance(x, int):
            return boxi(z3.IntVal(x))
        if isinstance(x, str):
            return lit(x)
        if isinstance(x, bytes):
            return lit("bytes:" + x.decode("latin1")) if x else lit("")
        if hasattr(x, "bytes_term"):
            return x.bytes_term(self)
        if isinstance(x, Opaque):
            return fresh("V", "opq")
        if isinstance(x, Union):
            t = self.toV(x.alts[-1][1], st)
            for g, v in reversed(x.alts[:-1]):
                t = z3.If(g, self.toV(v, st), t)
            return t
        if self.opaque_items and isinstance(x, (Ref, tuple)):
            return fresh("V", "item")
        raise Unsupported("cannot use %r as a JSON value" % (x,))

    def tostr(self, x):
        """Native string term."""
        if isinstance(x, str):
            return z3.StringVal(x)
        if isinstance(x, Sym) and x.sort == "str":
            return x.t
        if isinstance(x, Sym) and x.sort == "V":
            return sv(x.t)
        if isinstance(x, Opaque):
            return fresh("str", "opq")
        raise Unsupported("not a string: %r" % (x,))

    def toint(self, x):
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, Sym) and x.sort == "int":
            return x.t
        if isinstance(x, Sym) and x.sort == "bool":
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(x, Sym) and x.sort == "V":
            return iv(x.t)
        raise Unsupported("not an int: %r" % (x,))

    def as_setarr(self, o):
        if isinstance(o, (SetObj, AccList)):
            return o.arr
        if isinstance(o, MapObj):
            return o.dom
        if isinstance(o, (ListObj, DictObj)):
            a = EMPTY
            for x in o.items:
                a = z3.Store(a, self.toV(x), TRUE)
            return a
        raise Unsupported("not a set-like object")

    # ---------- merging ----------
    def lift(self, a, b):
        def sort(x):
            if isinstance(x, Sym):
                return x.sort
            if isinstance(x, bool):
                return "bool"
            if isinstance(x, int):
                return "int"
            if isinstance(x, str):
                return "litstr"
            return None
        sa, sb = sort(a), sort(b)
        if sa is None or sb is None:
            if (a is None and sb in ("V",)) or (b is None and sa in ("V",)):
                return "V"
            return None
        if sa == sb:
            return ("str" if self.native else "V") if sa == "litstr" else sa
        if "litstr" in (sa, sb):
            o = sb if sa == "litstr" else sa
            return o if o in ("str", "V") else None
        return None

    def merge_val(self, g, a, b, ctx):
        if a is b:
            return a
        if type(a) is type(b) and isinstance(a, (str, int, bool, Ref, ClassV, Ext)) and a == b:
            return a
        if isinstance(a, Sym) and isinstance(b, Sym) and a.sort == b.sort and a.t.eq(b.t):
            return a
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        s = self.lift(a, b)
        if s is not None:
            conv = {"str": self.tostr, "V": self.toV, "int": self.toint, "bool": lambda x: x.t if isinstance(x, Sym) else z3.BoolVal(x)}.get(s)
            if conv is not None:
                return Sym(s, z3.If(g, conv(a), conv(b)))
            if s == "real":
                return Sym(s, z3.If(g, a.t, b.t))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(g, x, y, ctx) for x, y in zip(a, b))
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.self_ == b.self_:
            return a
        alts = []
        for (gg, v) in ((g, a), (z3.Not(g), b)):
            if isinstance(v, Union):
                alts += [(z3.And(gg, h), w) for h, w in v.alts]
            else:
                alts.append((gg, v))
        return Union(alts)

    def merge_obj(self, g, a, b):
        if a is b:
            return a
        if type(a) is not type(b):
            pair = {type(a), type(b)}
            if pair == {DictObj, MapObj}:
                d = a if isinstance(a, DictObj) else b
                if not d.items:
                    m = b if d is a else a
                    e = MapObj(EMPTY, m.val, m.births)
                    return self.merge_obj(g, e if d is a else a, b if d is a else e)
            if pair == {ListObj, AccList}:
                a2, b2 = [x if isinstance(x, AccList) else self.B.acclist(x) for x in (a, b)]
                return self.merge_obj(g, a2, b2)
            return None
        if isinstance(a, Inst):
            if a.cls is not b.cls:
                return None
            f = {}
            for n in set(a.fields) | set(b.fields):
                x, y = a.fields.get(n, UNDEF), b.fields.get(n, UNDEF)
                f[n] = self.merge_val(g, x, y, None)
            return Inst(a.cls, f)
        if isinstance(a, ListObj):
            if len(a.items) == len(b.items):
                return ListObj([self.merge_val(g, x, y, None) for x, y in zip(a.items, b.items)])
            return None
        if isinstance(a, DictObj):
            if list(a.items) == list(b.items):
                return DictObj({k: self.merge_val(g, a.items[k], b.items[k], None) for k in a.items})
            return None
        if hasattr(a, "merge"):
            return a.merge(self, g, b)
        ifa = lambda x, y: x if x.eq(y) else z3.If(g, x, y)
        births = tuple(ifa(x, y) for x, y in zip(a.births, b.births))
        if isinstance(a, SetObj):
            return SetObj(ifa(a.arr, b.arr), births)
        if isinstance(a, MapObj):
            if a.val.sort() != b.val.sort():
                return None
            return MapObj(ifa(a.dom, b.dom), ifa(a.val, b.val), births)
        if isinstance(a, AccList):
            return AccList(ifa(a.arr, b.arr), ifa(a.len, b.len), births, ifa(a.seq, b.seq) if a.seq is not None and b.seq is not None else None)
        if hasattr(a, "merge"):
            return a.merge(self, g, b)
        return None

    def merge2(self, s1, s2, v1=None, v2=None, with_val=False):
        p = 0
        while p < len(s1.pc) and p < len(s2.pc) and s1.pc[p].eq(s2.pc[p]):
            p += 1
        r1, r2 = z3.And(*s1.pc[p:]), z3.And(*s2.pc[p:])
        if p == len(s1.pc):
            g = z3.Not(r2) if p < len(s2.pc) else z3.BoolVal(True)
            if p < len(s2.pc):
                # s1's condition includes s2's: keep them apart unless nothing differs
                return None if not self.same_content(s1, s2) or with_val and not same_val(v1, v2) else s1
        else:
            g = r1 if len(s1.pc) - p > 1 else s1.pc[p]
        env, heap = {}, {}
        for n in set(s1.env) | set(s2.env):
            x, y = s1.env.get(n, UNDEF), s2.env.get(n, UNDEF)
            env[n] = x if x is y else self.merge_val(g, x, y, None)
        for o in set(s1.heap) | set(s2.heap):
            x, y = s1.heap.get(o), s2.heap.get(o)
            if x is y or y is None:
                heap[o] = x
            elif x is None:
                heap[o] = y
            else:
                m = self.merge_obj(g, x, y)
                if m is None:
                    return None
                heap[o] = m
        ghost = {}
        for n in set(s1.ghost) | set(s2.ghost):
            x, y = s1.ghost.get(n), s2.ghost.get(n)
            if x is y:
                ghost[n] = x
            elif z3.is_expr(x) and z3.is_expr(y):
                ghost[n] = x if x.eq(y) else z3.If(g, x, y)
            elif x == y:
                ghost[n] = x
            else:
                return None
        ids = set(f.get_id() for f in s1.facts)
        facts = s1.facts + tuple(f for f in s2.facts if f.get_id() not in ids)
        common = s1.pc[:p]
        d = z3.simplify(z3.Or(r1, r2)) if len(s1.pc) - p + len(s2.pc) - p <= 3 else z3.Or(r1, r2)
        pc = common if z3.is_true(d) else common + (d,)
        st = State(env, heap, pc, facts, ghost)
        if with_val:
            return st, self.merge_val(g, v1, v2, None)
        return st

    def same_content(self, s1, s2):
        return (set(s1.env) == set(s2.env) and all(same_val(s1.env[n], s2.env[n]) for n in s1.env)
                and all(s1.heap.get(o) is s2.heap.get(o) for o in set(s1.heap) & set(s2.heap)) and s1.ghost == s2.ghost)

    def merge_states(self, sts):
        if self.split_paths:
            self.limit(sts)
            return list(sts)
        out = []
        for s in sts:
            for n, o in enumerate(out):
                m = self.merge2(o, s)
                if m is not None:
                    out[n] = m
                    break
            else:
                out.append(s)
        self.limit(out)
        return out

    def merge_vals(self, pairs, union_ok=True):
        if self.split_paths:
            self.limit(pairs)
            return list(pairs)
        out = []
        for s, v in pairs:
            for n, (o, w) in enumerate(out):
                m = self.merge2(o, s, w, v, with_val=True)
                if m is not None and not isinstance(m, State):
                    if not union_ok and isinstance(m[1], Union):
                        continue
                    out[n] = m
                    break
                if isinstance(m, State):
                    out[n] = (m, w)
                    break
            else:
                out.append((s, v))
        self.limit(out)
        return out

    def limit(self, lst):
        if len(lst) > self.max_states:
            raise Unsupported("too many symbolic states")

    # ---------- truth ----------
    def truth(self, st, v, node=None):
        """[(state, bool)]"""
        if isinstance(v, Union):
            out = []
            for g, x in v.alts:
                s = st.assume(g)
                if self.feasible(s):
                    out += self.truth(s, x, node)
            return out
        if isinstance(v, Sym):
            if v.sort == "bool":
                c = v.t
            elif v.sort == "int":
                c = v.t != 0
            elif v.sort == "str":
                c = v.t != z3.StringVal("")
            elif v.sort == "real":
                c = v.t != 0
            else:
                t = v.t
                c = z3.Or(z3.And(kind(t) == KB, bv(t)), z3.And(kind(t) == KI, iv(t) != 0), z3.And(kind(t) == KS, t != lit("")),
                          z3.And(kind(t) == KL, jlen(t) > 0), z3.And(kind(t) == KD, nk(t) > 0), z3.And(kind(t) == KF, z3.Function("ftruth", V, BoolS)(t)))
            a, b = self.fork(st, c)
            return [(s, r) for s, r in ((a, True), (b, False)) if s is not None]
        if isinstance(v, Opaque):
            b = fresh("bool", "nd")
            return [(st.assume(b), True), (st.assume(z3.Not(b)), False)]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, (ListObj, DictObj)):
                return [(st, len(o.items) > 0)]
            if isinstance(o, SetObj):
                st, c = self.card(st, o.arr)
                a, b = self.fork(st, c > 0)
            elif isinstance(o, MapObj):
                st, c = self.card(st, o.dom)
                a, b = self.fork(st, c > 0)
            elif isinstance(o, AccList):
                a, b = self.fork(st, o.len > 0)
            else:
                return [(st, True)]
            return [(s, r) for s, r in ((a, True), (b, False)) if s is not None]
        if v is None or isinstance(v, (bool, int, str, tuple, float)):
            return [(st, bool(v))]
        if isinstance(v, (Func, ClassV, Ext, Bound, Exc)):
            return [(st, True)]
        if hasattr(v, "truth"):
            return v.truth(self, st)
        raise Unsupported("truth of %r" % (v,), node)

    def card(self, st, arr):
        """Number of elements of a set array."""
        return st, card(arr)

    def cond(self, node, st):
        """Evaluate node as a condition: (true states, false states), merged."""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur, done = [st], []
            for v in node.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(v, s)
                    if isand:
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                cur = self.merge_states(nxt)
            done = self.merge_states(done)
            return (cur, done) if isand else (done, cur)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st)
            return f, t
        ts, fs = [], []
        for s, v in self.ev(node, st):
            for s2, b in self.truth(s, v, node):
                (ts if b else fs).append(s2)
        return self.merge_states(ts), self.merge_states(fs)

    # ---------- expressions ----------
    def ev(self, node, st):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(node).__name__, node)
        try:
            return m(node, st)
        except Unsupported as e:
            if e.node is None:
                e.node = node
                e.args = (e.msg + " (line %s: %s)" % (getattr(node, "lineno", None), ast.unparse(node)[:80]),)
            raise

    def ev1(self, node, st):
        return self.ev(node, st)

    def evs(self, nodes, st):
        """Evaluate a list of expressions left to right: [(st, [vals])]."""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        items = self.B.concrete_items(s2, v)
                        if items is None and isinstance(v, Ref) and isinstance(s2.heap[v.oid], JoinList):
                            items = [StarJoin(s2.heap[v.oid])]
                        if items is None:
                            raise Unsupported("starred symbolic sequence", n)
                        nxt.append((s2, vs + list(items)))
                else:
                    for s2, v in self.ev(n, s):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def split(self, st, v):
        """Split a Union into its alternatives: [(st, v)]."""
        if isinstance(v, Union):
            out = []
            for g, x in v.alts:
                s = st.assume(g)
                if self.feasible(s):
                    out += self.split(s, x)
            return out
        return [(st, v)]

    def ev_Constant(self, node, st):
        return [(st, node.value)]

    def ev_Name(self, node, st):
        return [(st, self.lookup(node.id, st, node))]

    def lookup(self, name, st, node=None):
        if name in st.env:
            v = st.env[name]
            if isinstance(v, Undef):
                raise Unsupported("possibly undefined variable " + name, node)
            return v
        clo = st.env.get("$closure")
        if clo and name in clo:
            return clo[name]
        mod = st.env["$mod"]
        return self.global_name(mod, name, node)

    def global_name(self, mod, name, node=None):
        k = (mod.name, name)
        if k in self.module_globals:
            return self.module_globals[k]
        if name == "__file__":
            return mod.path
        if name in mod.funcs:
            return Func(mod, None, mod.funcs[name])
        if name in mod.classes:
            return ClassV(mod.classes[name])
        if name in mod.consts:
            return self.const_value(mod, mod.consts[name], name)
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "mod":
                return Ext(imp[1])
            m = imp[1]
            if m.startswith("."):
                target = self.repo.module(m.lstrip(".")) if m.lstrip(".") else self.repo.module(imp[2])
                if target is None:
                    raise Unsupported("import " + m)
                if not m.lstrip("."):
                    return target
                return self.global_name(target, imp[2], node)
            return Ext(m + "." + imp[2])
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            return Ext("builtins." + name) if not (isinstance(o, type) and issubclass(o, BaseException)) else o
        raise Unsupported("name " + name, node)

    def const_value(self, mod, node, name):
        try:
            v = ast.literal_eval(node)
        except Exception:
            if isinstance(node, ast.Name):
                return self.global_name(mod, node.id)
            v = const_arith(node)
            if v is None:
                return Opaque("global " + name)
        return FrozenConst.wrap(v)

    def ev_Tuple(self, node, st):
        return [(s, tuple(vs)) for s, vs in self.evs(node.elts, st)]

    def ev_List(self, node, st):
        out = []
        for s, vs in self.evs(node.elts, st):
            s = s.copy()
            out.append((s, self.alloc(s, ListObj(vs))))
        return out

    def ev_Set(self, node, st):
        out = []
        for s, vs in self.evs(node.elts, st):
            s = s.copy()
            a = EMPTY
            for v in vs:
                a = z3.Store(a, self.toV(v), TRUE)
            out.append((s, self.alloc(s, SetObj(a))))
        return out

    def ev_Dict(self, node, st):
        if any(k is None for k in node.keys):
            raise Unsupported("dict unpacking", node)
        out = []
        for s, ks in self.evs(node.keys, st):
            for s2, vs in self.evs(node.values, s):
                s2 = s2.copy()
                if all(isinstance(k, (str, int)) for k in ks):
                    out.append((s2, self.alloc(s2, DictObj(dict(zip(ks, vs))))))
                else:
                    r = self.alloc(s2, DictObj())
                    for k, v in zip(ks, vs):
                        ss = self.B.setitem(s2, r, k, v, node)
                        s2 = ss[0]
                    out.append((s2, r))
        return out

    def ev_JoinedStr(self, node, st):
        parts = []
        cur = [(st, [])]
        for v in node.values:
            nxt = []
            for s, ps in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((s, ps + [v.value]))
                else:
                    for s2, x in self.ev(v.value, s):
                        if v.format_spec is not None or v.conversion not in (-1, 115):
                            nxt.append((s2, ps + [Opaque("fmt")]))
                        else:
                            for s3, y in self.B.to_str(s2, x, node):
                                nxt.append((s3, ps + [y]))
            cur = nxt
        return [(s, self.B.concat(ps)) for s, ps in cur]

    def ev_IfExp(self, node, st):
        t, f = self.cond(node.test, st)
        out = []
        for s in t:
            out += self.ev(node.body, s)
        for s in f:
            out += self.ev(node.orelse, s)
        return self.merge_vals(out)

    def ev_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        cur, done = [st], []
        for n, v in enumerate(node.values):
            last = n == len(node.values) - 1
            nxt = []
            for s in cur:
                for s2, x in self.ev(v, s):
                    if last:
                        done.append((s2, x))
                        continue
                    for s3, b in self.truth(s2, x, node):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            done.append((s3, b if isinstance(x, Sym) and x.sort == "bool" else x))
            cur = nxt
        return self.merge_vals(done)

    def ev_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st)
            return self.merge_vals([(s, False) for s in t] + [(s, True) for s in f])
        out = []
        for s, v in self.ev(node.operand, st):
            if isinstance(node.op, ast.USub):
                if isinstance(v, (int, float)):
                    out.append((s, -v))
                elif isinstance(v, Sym) and v.sort in ("int", "real"):
                    out.append((s, Sym(v.sort, -v.t)))
                else:
                    raise Unsupported("unary minus", node)
            else:
                raise Unsupported("unary op", node)
        return out

    def ev_BinOp(self, node, st):
        out = []
        for s, (a, b) in self.evs([node.left, node.right], st):
            for s1, x in self.split(s, a):
                for s2, y in self.split(s1, b):
                    out += self.B.binop(s2, type(node.op).__name__, x, y, node)
        return self.merge_vals(out)

    def ev_Compare(self, node, st):
        if len(node.ops) == 1:
            out = []
            for s, (a, b) in self.evs([node.left, node.comparators[0]], st):
                for s1, x in self.split(s, a):
                    for s2, y in self.split(s1, b):
                        out += self.B.compare(s2, type(node.ops[0]).__name__, x, y, node)
            return self.merge_vals(out)
        # chained
        left, cur, done = node.left, None, []
        parts = [node.left] + node.comparators
        exprs = []
        for s, vs in self.evs(parts, st):
            states = [(s, True)]
            res = []
            for n, op in enumerate(node.ops):
                nxt = []
                for s1, _ in states:
                    for s2, r in self.B.compare(s1, type(op).__name__, vs[n], vs[n + 1], node):
                        for s3, b in self.truth(s2, r):
                            (nxt if b else res).append((s3, b))
                states = nxt
            exprs += res + states
        return self.merge_vals(exprs)

    def ev_Attribute(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            for s1, x in self.split(s, v):
                out += self.getattr(s1, x, node.attr, node)
        return out

    def getattr(self, st, v, name, node=None):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, Inst):
                if name in o.fields:
                    x = o.fields[name]
                    if isinstance(x, Undef):
                        raise Unsupported("possibly unset attribute " + name, node)
                    return [(st, x)]
                if o.cls is not None:
                    return self.class_attr(st, o.cls, name, v, node)
                raise Unsupported("attribute %s" % name, node)
            return [(st, Bound(v, name))]
        if isinstance(v, ClassV):
            return self.class_attr(st, v.info, name, None, node)
        if isinstance(v, Ext):
            if v.name + "." + name in ("os.sep", "os.path.sep"):
                return [(st, "/")]
            return [(st, Ext(v.name + "." + name))]
        if hasattr(v, "getattr"):
            return v.getattr(self, st, name, node)
        if v.__class__.__name__ == "ModuleInfo":
            return [(st, self.global_name(v, name, node))]
        if v is None:
            self.raise_(st, Exc(AttributeError))
            return []
        if isinstance(v, Exc):
            return [(st, Opaque("exc attr"))]
        return [(st, Bound(v, name))]

    def find_method(self, info, name):
        """(classinfo, kind, node) searching base classes within the package."""
        if name in info.props:
            return info, "prop", info.props[name]
        if name in info.methods:
            return info, info.kinds[name], info.methods[name]
        if name in info.attrs:
            return info, "attr", info.attrs[name]
        for b in info.bases:
            if isinstance(b, ast.Name):
                try:
                    v = self.global_name(info.mod, b.id)
                except Unsupported:
                    continue
                if isinstance(v, ClassV):
                    r = self.find_method(v.info, name)
                    if r:
                        return r
        return None

    def class_attr(self, st, info, name, self_, node):
        r = self.find_method(info, name)
        if r is None:
            raise Unsupported("attribute %s of %s" % (name, info.name), node)
        ci, k, n = r
        if k == "prop":
            if self_ is None:
                raise Unsupported("property on class", node)
            return self.call_func(st, Func(ci.mod, ci, n, self_), [], {}, node)
        if k == "attr":
            return [(st, self.const_value(ci.mod, n, name))]
        if k == "static":
            return [(st, Func(ci.mod, ci, n))]
        return [(st, Func(ci.mod, ci, n, self_ if k == "inst" else ClassV(info)))]

    def ev_Subscript(self, node, st):
        out = []
        if isinstance(node.slice, ast.Slice):
            sl = node.slice
            if sl.step is not None:
                raise Unsupported("slice step", node)
            parts = [node.value] + [x for x in (sl.lower, sl.upper) if x is not None]
            for s, vs in self.evs(parts, st):
                base, rest = vs[0], vs[1:]
                lo = rest.pop(0) if sl.lower is not None else None
                hi = rest.pop(0) if sl.upper is not None else None
                for s1, b in self.split(s, base):
                    out += self.B.slice(s1, b, lo, hi, node)
            return out
        for s, (a, b) in self.evs([node.value, node.slice], st):
            for s1, x in self.split(s, a):
                for s2, y in self.split(s1, b):
                    out += self.B.getitem(s2, x, y, node)
        return self.merge_vals(out) if len(out) > 1 else out

    def ev_Lambda(self, node, st):
        return [(st, Func(st.env["$mod"], None, node, None, {k: v for k, v in st.env.items()}))]

    def ev_ListComp(self, node, st):
        return self.B.comprehension(st, node, "list")

    def ev_SetComp(self, node, st):
        return self.B.comprehension(st, node, "set")

    def ev_GeneratorExp(self, node, st):
        return self.B.comprehension(st, node, "gen")

    def ev_DictComp(self, node, st):
        return self.B.comprehension(st, node, "dict")

    def ev_Starred(self, node, st):
        raise Unsupported("starred", node)

    def ev_NamedExpr(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            out += [(s2, v) for s2 in self.assign(s, node.target, v)]
        return out

    # ---------- calls ----------
    def ev_Call(self, node, st):
        out = []
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            return [(st, SuperV(st.env["$cls"], st.env["self"]))]
        if any(k.arg is None for k in node.keywords):
            for s, f in self.ev(node.func, st):
                for s1, args in self.evs(node.args, s):
                    kws = [k for k in node.keywords if k.arg is not None]
                    star = [k.value for k in node.keywords if k.arg is None]
                    for s2, kv in self.evs([k.value for k in kws], s1):
                        for s3, sv_ in self.evs(star, s2):
                            d = dict(zip([k.arg for k in kws], kv))
                            for x in sv_:
                                o = s3.heap.get(x.oid) if isinstance(x, Ref) else None
                                if isinstance(o, DictObj):
                                    d.update(o.items)
                                else:
                                    d["**"] = x
                            out += self.call(s3, f, args, d, node)
            return out
        for s, f in self.ev(node.func, st):
            for s1, args in self.evs(node.args, s):
                for s2, kv in self.evs([k.value for k in node.keywords], s1):
                    out += self.call(s2, f, args, dict(zip([k.arg for k in node.keywords], kv)), node)
        return self.merge_vals(out) if len(out) > 1 else out

    def call(self, st, f, args, kwargs, node=None):
        if isinstance(f, Union):
            out = []
            for s, g in self.split(st, f):
                out += self.call(s, g, args, kwargs, node)
            return out
        if isinstance(f, Func):
            return self.call_func(st, f, args, kwargs, node)
        if isinstance(f, ClassV):
            return self.construct(st, f, args, kwargs, node)
        if isinstance(f, Ext):
            return self.B.call_ext(st, f.name, args, kwargs, node)
        if isinstance(f, Bound):
            return self.B.call_method(st, f.recv, f.name, args, kwargs, node)
        if isinstance(f, type) and issubclass(f, BaseException):
            return [(st, Exc(f, tuple(args)))]
        if isinstance(f, Opaque):
            return [(st, Opaque("call"))]
        if hasattr(f, "call"):
            return f.call(self, st, args, kwargs, node)
        raise Unsupported("call of %r" % (f,), node)

    def is_exc_class(self, info):
        for b in info.bases:
            if isinstance(b, ast.Name):
                v = None
                try:
                    v = self.global_name(info.mod, b.id)
                except Unsupported:
                    pass
                if isinstance(v, type) and issubclass(v, BaseException):
                    return True
                if isinstance(v, ClassV) and self.is_exc_class(v.info):
                    return True
        return False

    def construct(self, st, c, args, kwargs, node):
        info = c.info
        q = info.mod.name + "." + info.name
        if q in self.summaries:
            self.used_summaries.add(q)
            return self.summaries[q](self, st, {"args": args, "kwargs": kwargs}, node)
        if self.is_exc_class(info):
            return [(st, Exc(info, tuple(args)))]
        st = st.copy()
        r = self.alloc(st, Inst(info, {}))
        m = self.find_method(info, "__init__")
        if m is None:
            return [(st, r)]
        return [(s, r) for s, _ in self.call_func(st, Func(m[0].mod, m[0], m[2], r), args, kwargs, node)]

    def bind_args(self, f, args, kwargs, st, node):
        a = f.node.args
        pos_ = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        env = {}
        if f.self_ is not None:
            vals = [f.self_] + vals
        kw = dict(kwargs)
        if len(vals) > len(pos_):
            if a.vararg is None:
                raise Unsupported("too many arguments for " + f.qual, node)
            env[a.vararg.arg] = tuple(vals[len(pos_):])
            vals = vals[:len(pos_)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos_, vals):
            env[n] = v
        defaults = dict(zip(pos_[len(pos_) - len(a.defaults):], a.defaults))
        kwd = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for n in pos_[len(vals):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
            elif n in defaults or n in kwd:
                d = defaults.get(n, kwd.get(n))
                env[n] = self.default_value(f, d)
            else:
                raise Unsupported("missing argument %s of %s" % (n, f.qual), node)
        for n in list(kw):
            if n in pos_:
                raise Unsupported("duplicate argument", node)
        if a.kwarg is not None:
            if "**" in kw:             # an arbitrary dict of further arguments
                env[a.kwarg.arg] = kw["**"] if len(kw) == 1 else Opaque("kwargs")
            else:
                env[a.kwarg.arg] = ("$kw", kw)
        elif kw:
            raise Unsupported("unexpected keyword %s for %s" % (list(kw), f.qual), node)
        return env

    def default_value(self, f, d):
        try:
            v = ast.literal_eval(d)
            if isinstance(v, (list, dict, set)) and v:
                raise Unsupported("mutable default")
            return FrozenConst.wrap(v)
        except (ValueError, TypeError):
            if isinstance(d, ast.Name):
                return self.global_name(f.mod, d.id)
            if isinstance(d, ast.Attribute):
                b = self.global_name(f.mod, d.value.id)
                return self.getattr(State(), b, d.attr)[0][1]
            raise Unsupported("default value")

    def call_func(self, st, f, args, kwargs, node):
        q = f.qual
        if q in self.summaries and not (self.funcstack and self.funcstack[0] == q and len(self.funcstack) == 0):
            self.used_summaries.add(q)
            env = self.bind_args(f, args, kwargs, st, node)
            return self.summaries[q](self, st, env, node)
        return self.inline(st, f, args, kwargs, node)

    def inline(self, st, f, args, kwargs, node, top=False):
        q = f.qual
        if self.funcstack.count(q) >= 1 and not top:
            raise Unsupported("recursive call of %s without a contract" % q, node)
        if len(self.funcstack) > 25:
            raise Unsupported("call depth")
        env = self.bind_args(f, args, kwargs, st, node)
        env["$mod"] = f.mod
        env["$cls"] = f.cls
        if f.closure:
            env["$closure"] = f.closure
        st2 = st.copy()
        for n, v in list(env.items()):
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "$kw":
                env[n] = self.alloc(st2, DictObj(v[1]))
        saved = st.env
        st2.env = env
        self.inlined.add(q)
        self.funcstack.append(q)
        saved_sink, self.sink = self.sink, []
        if isinstance(f.node, ast.Lambda):
            outs = [("ret", s, v) for s, v in self.ev(f.node.body, st2)]
        else:
            if is_generator(f.node):
                outs = self.B.run_generator(st2, f)
            else:
                outs = self.block(f.node.body, st2)
        self.funcstack.pop()
        mine, self.sink = self.sink, saved_sink
        res = []
        for s, e in mine:
            s = s.copy()
            s.env = saved
            self.sink.append((s, e))
        for k, s, v in outs:
            s = s.copy()
            s.env = saved
            res.append((s, None if k == "norm" else v))
        return res if top and self.split_returns else self.merge_vals(res)

    # ---------- statements ----------
    def block(self, stmts, st):
        """[(kind, st, val)] with kind in norm/ret/break/cont; raises go to the sink."""
        cur, out = [st], []
        for n in stmts:
            if not cur:
                break
            nxt = []
            for s in cur:
                for k, s2, v in self.stmt(n, s):
                    if k == "norm":
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            cur = self.merge_states(nxt)
        rets = [(s, v) for k, s, v in out if k == "ret"]
        res = [("ret", s, v) for s, v in (self.merge_vals(rets) if len(rets) > 1 and not (self.split_returns and len(self.funcstack) == 1) else rets)]
        for kk in ("break", "cont"):
            ss = [s for k, s, v in out if k == kk]
            res += [(kk, s, None) for s in (self.merge_states(ss) if len(ss) > 1 else ss)]
        return [("norm", s, None) for s in cur] + res

    def stmt(self, node, st):
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(node).__name__, node)
        try:
            return m(node, st)
        except Unsupported as e:
            if e.node is None:
                e.node = node
                e.args = (e.msg + " (line %s)" % getattr(node, "lineno", None),)
            raise

    def st_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [("norm", st, None)]
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            return self.B.do_yield(st, node.value)
        return [("norm", s, None) for s in self.merge_states([s for s, _ in self.ev(node.value, st)])]

    def st_Pass(self, node, st):
        return [("norm", st, None)]

    def st_Import(self, node, st):
        return [("norm", st, None)]

    def st_Global(self, node, st):
        raise Unsupported("global", node)

    def st_Assert(self, node, st):
        t, f = self.cond(node.test, st)
        for s in f:
            self.raise_(s, Exc(AssertionError))
        return [("norm", s, None) for s in t]

    def st_Return(self, node, st):
        if node.value is None:
            return [("ret", st, None)]
        return [("ret", s, v) for s, v in self.ev(node.value, st)]

    def st_Break(self, node, st):
        return [("break", st, None)]

    def st_Continue(self, node, st):
        return [("cont", st, None)]

    def st_FunctionDef(self, node, st):
        st = st.copy()
        clo = dict(st.env)
        f = Func(st.env["$mod"], None, node, None, clo)
        clo[node.name] = f
        st.env[node.name] = f
        return [("norm", st, None)]

    def st_Assign(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            cur = [s]
            for t in node.targets:
                nxt = []
                for s1 in cur:
                    nxt += self.assign(s1, t, v)
                cur = nxt
            out += cur
        return [("norm", s, None) for s in out]

    def st_AnnAssign(self, node, st):
        if node.value is None:
            return [("norm", st, None)]
        return [("norm", s2, None) for s, v in self.ev(node.value, st) for s2 in self.assign(s, node.target, v)]

    def st_AugAssign(self, node, st):
        out = []
        t = node.target
        op = type(node.op).__name__
        if isinstance(t, ast.Name):
            for s, (a, b) in self.evs([ast.copy_location(ast.Name(t.id, ast.Load()), t), node.value], st):
                for s1, x in self.split(s, a):
                    for s2, r in self.B.augop(s1, op, x, b, node):
                        out += self.assign(s2, t, r)
        elif isinstance(t, ast.Attribute):
            for s, base in self.ev(t.value, st):
                for s1, x in self.getattr(s, base, t.attr, node):
                    for s2, b in self.ev(node.value, s1):
                        for s3, r in self.B.augop(s2, op, x, b, node):
                            out += self.setattr(s3, base, t.attr, r, node)
        elif isinstance(t, ast.Subscript):
            for s, (base, k) in self.evs([t.value, t.slice], st):
                for s1, x in self.B.getitem(s, base, k, node):
                    for s2, b in self.ev(node.value, s1):
                        for s3, r in self.B.augop(s2, op, x, b, node):
                            out += self.B.setitem(s3, base, k, r, node)
        return [("norm", s, None) for s in out]

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env[t.id] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, x in self.split(st, v):
                items = self.B.concrete_items(s, x)
                if items is None:
                    raise Unsupported("unpacking of a symbolic sequence", t)
                if len(items) != len(t.elts):
                    self.raise_(s, Exc(ValueError))
                    continue
                cur = [s]
                for tt, y in zip(t.elts, items):
                    cur = [s3 for s2 in cur for s3 in self.assign(s2, tt, y)]
                out += cur
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for s, base in self.ev(t.value, st):
                for s1, b in self.split(s, base):
                    out += self.setattr(s1, b, t.attr, v, t)
            return out
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
            out = []
            for s, b in self.ev(t.value, st):
                if not hasattr(b, "setall"):
                    raise Unsupported("assignment to a slice", t)
                out += b.setall(self, s, v, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (b, k) in self.evs([t.value, t.slice], st):
                for s1, x in self.split(s, b):
                    for s2, y in self.split(s1, k):
                        out += self.B.setitem(s2, x, y, v, t)
            return out
        raise Unsupported("assignment target", t)

    def setattr(self, st, base, name, v, node):
        if isinstance(base, Ref) and isinstance(st.heap[base.oid], Inst):
            o = st.heap[base.oid]
            if o.cls is not None:
                ci = o.cls
                setter = self.find_setter(ci, name)
                if setter:
                    f = Func(setter[0].mod, setter[0], setter[1], base)
                    q = f.qual + "!set"
                    if q in self.summaries:
                        self.used_summaries.add(q)
                        return [s for s, _ in self.summaries[q](self, st, self.bind_args(f, [v], {}, st, node), node)]
                    return [s for s, _ in self.call_func(st, Func(setter[0].mod, setter[0], setter[1], base), [v], {}, node)]
            s = st.copy()
            s.heap[base.oid] = Inst(o.cls, {**o.fields, name: v})
            return [s]
        if hasattr(base, "setattr"):
            return base.setattr(self, st, name, v, node)
        raise Unsupported("attribute assignment on %r" % (base,), node)

    def find_setter(self, info, name):
        if name in info.setters:
            return info, info.setters[name]
        for b in info.bases:
            if isinstance(b, ast.Name):
                try:
                    v = self.global_name(info.mod, b.id)
                except Unsupported:
                    continue
                if isinstance(v, ClassV):
                    r = self.find_setter(v.info, name)
                    if r:
                        return r
        return None

    def st_Delete(self, node, st):
        cur = [st]
        for t in node.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    for s1, b in self.ev(t.value, s):
                        if not hasattr(b, "setall"):
                            raise Unsupported("del of a slice", node)
                        nxt += b.setall(self, s1, (), node)
                elif isinstance(t, ast.Subscript):
                    for s1, (b, k) in self.evs([t.value, t.slice], s):
                        nxt += self.B.delitem(s1, b, k, node)
                elif isinstance(t, ast.Name):
                    s2 = s.copy()
                    s2.env.pop(t.id, None)
                    nxt.append(s2)
                else:
                    raise Unsupported("del", node)
            cur = nxt
        return [("norm", s, None) for s in cur]

    def st_If(self, node, st):
        ts, fs = self.cond(node.test, st)
        out = []
        for s in ts:
            out += self.block(node.body, s)
        for s in fs:
            out += self.block(node.orelse, s) if node.orelse else [("norm", s, None)]
        return self.merge_outs(out)

    def merge_outs(self, out):
        if len(out) < 2:
            return out
        norm = self.merge_states([s for k, s, v in out if k == "norm"])
        rets = self.merge_vals([(s, v) for k, s, v in out if k == "ret"])
        res = [("norm", s, None) for s in norm] + [("ret", s, v) for s, v in rets]
        for kk in ("break", "cont"):
            res += [(kk, s, None) for s in self.merge_states([s for k, s, v in out if k == kk])]
        return res

    def st_Raise(self, node, st):
        if node.exc is None:
            e = st.env.get("$exc")
            if e is None:
                raise Unsupported("bare raise", node)
            self.raise_(st, e)
            return []
        for s, v in self.ev(node.exc, st):
            for s1, x in self.split(s, v):
                if isinstance(x, type) and issubclass(x, BaseException):
                    x = Exc(x)
                if isinstance(x, ClassV):
                    x = Exc(x.info)
                if not isinstance(x, Exc):
                    raise Unsupported("raise of %r" % (x,), node)
                self.raise_(s1, x)
        return []

    def exc_matches(self, exc, cls):
        """True/False: does exception value `exc` match class value `cls`."""
        def mro(c):
            if isinstance(c, type):
                return set(c.__mro__)
            out = {c.mod.name + "." + c.name}
            for b in c.bases:
                if isinstance(b, ast.Name):
                    v = self.global_name(c.mod, b.id)
                    if isinstance(v, ClassV):
                        out |= mro(v.info)
                    elif isinstance(v, type):
                        out |= mro(v)
                elif isinstance(b, ast.Attribute):
                    out |= {Exception, BaseException}
            return out
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        if isinstance(cls, ClassV):
            return (cls.info.mod.name + "." + cls.info.name) in mro(exc.cls)
        if isinstance(cls, type):
            return cls in mro(exc.cls)
        if isinstance(cls, Ext):
            n = cls.name
            c = EXT_EXC.get(n)
            if c is None:
                raise Unsupported("exception class " + n)
            return c in mro(exc.cls)
        raise Unsupported("except clause %r" % (cls,))

    def st_Try(self, node, st):
        saved, self.sink = self.sink, []
        outs = self.block(node.body, st)
        raised, self.sink = self.sink, saved
        res = []
        norm = [s for k, s, v in outs if k == "norm"]
        res += [(k, s, v) for k, s, v in outs if k != "norm"]
        if node.orelse:
            for s in norm:
                res += self.block(node.orelse, s)
        else:
            res += [("norm", s, None) for s in norm]
        unhandled = []
        saved2, self.sink = self.sink, []
        # merge raised states of the same class
        groups = []
        for s, e in raised:
            for g in groups:
                if g[1].cls is e.cls and not e.args and not g[1].args or g[1] is e:
                    m = self.merge2(g[0], s)
                    if m is not None:
                        g[0] = m
                        break
            else:
                groups.append([s, e])
        for s, e in groups:
            for h in node.handlers:
                if h.type is None:
                    ok = True
                else:
                    (s1, cls), = self.ev(h.type, s)
                    ok = self.exc_matches(e, cls)
                if ok:
                    s1 = s.copy()
                    if h.name:
                        s1.env[h.name] = e
                    s1.env["$exc"] = e
                    res += self.block(h.body, s1)
                    break
            else:
                unhandled.append((s, e))
        hraised, self.sink = self.sink, saved2
        allraise = unhandled + hraised
        if node.finalbody:
            res2 = []
            for k, s, v in res:
                for k2, s2, v2 in self.block(node.finalbody, s):
                    res2.append((k, s2, v) if k2 == "norm" else (k2, s2, v2))
            res = res2
            for s, e in allraise:
                for k2, s2, v2 in self.block(node.finalbody, s):
                    if k2 == "norm":
                        self.sink.append((s2, e))
                    else:
                        res.append((k2, s2, v2))
        else:
            self.sink += allraise
        return self.merge_outs(res)

    def st_With(self, node, st):
        cur = [st]
        closers = []
        for it in node.items:
            nxt = []
            for s in cur:
                for s1, v in self.ev(it.context_expr, s):
                    if isinstance(v, Ref) and hasattr(s1.heap[v.oid], "exit"):
                        closers.append(v)
                    if it.optional_vars is not None:
                        nxt += self.assign(s1, it.optional_vars, v)
                    else:
                        nxt.append(s1)
            cur = nxt
        out = []
        for s in cur:
            for k, s1, v in self.block(node.body, s):
                for r in reversed(closers):
                    if r.oid in s1.heap:
                        s1 = s1.heap[r.oid].exit(self, s1, r)
                out.append((k, s1, v))
        return self.merge_outs(out)

    def st_While(self, node, st):
        from . import loops
        return loops.run_while(self, node, st)

    def st_For(self, node, st):
        from . import loops
        out = []
        for s, it in self.ev(node.iter, st):
            for s1, x in self.split(s, it):
                out += loops.run_for(self, node, s1, x)
        return self.merge_outs(out)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.sort == b.sort and a.t.eq(b.t)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, (str, int, bool, float, Ref, ClassV, Ext)):
        return a == b
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node and a.self_ == b.self_
    if hasattr(a, "same_val"):
        return a.same_val(b)
    if isinstance(a, Union) and isinstance(b, Union):
        return len(a.alts) == len(b.alts) and all(g.eq(h) and same_val(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    return False


def is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def getattr(self, eng, st, name, node):
        for b in self.cls.bases:
            if isinstance(b, ast.Name):
                v = eng.global_name(self.cls.mod, b.id)
                if isinstance(v, ClassV):
                    r = eng.find_method(v.info, name)
                    if r:
                        return [(st, Func(r[0].mod, r[0], r[2], self.self_))]
        raise Unsupported("super().%s" % name, node)


class FrozenConst:
    """A module-level constant container (never mutated through this value)."""

    def __init__(self, v):
        self.v = v

    @staticmethod
    def wrap(v):
        if isinstance(v, (dict, list, set, frozenset)):
            return FrozenConst(v)
        if isinstance(v, tuple):
            return tuple(FrozenConst.wrap(x) for x in v)
        return v

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return [(st, bool(self.v))]


import json as _json  # noqa: E402
EXT_EXC = {"json.JSONDecodeError": _json.JSONDecodeError, "json.decoder.JSONDecodeError": _json.JSONDecodeError}
