"""Values, heap objects and the background theory used by the symbolic executor."""
import itertools

import z3

_mp0, _mpkeep = z3.MultiPattern, []


def MultiPattern(*a):
    """z3's, with the terms kept alive (the binding does not hold on to them)."""
    r = _mp0(*a)
    _mpkeep.append((a, r))
    return r


z3.MultiPattern = MultiPattern
_forall0 = z3.ForAll
z3.set_param("warning", False)


def ForAll(vs, body, *a, **kw):
    """z3's; terms that cannot be patterns (conditionals, connectives) are dropped."""
    try:
        return _forall0(vs, body, *a, **kw)
    except z3.Z3Exception:
        kw = {k: v for k, v in kw.items() if k != "patterns"}
        return _forall0(vs, body, *a, **kw)


z3.ForAll = ForAll

V = z3.DeclareSort("V")          # any JSON value / any Python string, compared by ==
BoolS, IntS, StrS = z3.BoolSort(), z3.IntSort(), z3.StringSort()
SetS = z3.ArraySort(V, BoolS)

KN, KB, KI, KF, KS, KL, KD = range(7)   # None bool int float str list dict
kind = z3.Function("kind", V, IntS)
jlen = z3.Function("jlen", V, IntS)
at = z3.Function("at", V, IntS, V)
pos = z3.Function("pos", V, V, IntS)         # some index of an element in a list
mem = z3.Function("mem", V, V, BoolS)        # element of a list
nk = z3.Function("nk", V, IntS)
key = z3.Function("key", V, IntS, V)
kidx = z3.Function("kidx", V, V, IntS)
has = z3.Function("has", V, V, BoolS)
get = z3.Function("get", V, V, V)
iv = z3.Function("iv", V, IntS)
bv = z3.Function("bv", V, BoolS)
sv = z3.Function("sv", V, StrS)
boxi = z3.Function("boxi", IntS, V)
boxb = z3.Function("boxb", BoolS, V)
boxs = z3.Function("boxs", StrS, V)
noneV = z3.Const("noneV", V)
card = z3.Function("card", SetS, IntS)
cwit = z3.Function("cwit", SetS, V)
set_union, set_intersection, set_difference = [z3.Function(n, SetS, SetS, SetS) for n in ("set_union", "set_intersection", "set_difference")]
# some enumeration (number: the order) of a finite set
finite = z3.Function("finite", SetS, BoolS)
scount = z3.Function("scount", IntS, SetS, IntS)
senum = z3.Function("senum", IntS, SetS, IntS, V)
spos = z3.Function("spos", IntS, SetS, V, IntS)
setof = z3.Function("setof", V, SetS)        # set of the elements of a list / keys of a dict

_cnt = itertools.count()


def fresh(sort, name="x"):
    s = {"int": IntS, "bool": BoolS, "str": StrS, "V": V, "real": z3.RealSort()}.get(sort, sort) if isinstance(sort, str) else sort
    return z3.Const("%s!%d" % (name, next(_cnt)), s)


_lits = {}


def lit(s):
    """The V constant for a concrete string."""
    if s not in _lits:
        _lits[s] = z3.Const("lit:" + "".join(c if 32 < ord(c) < 127 and c not in "|\\" else "_%x_" % ord(c) for c in s), V)
    return _lits[s]


def lit_axioms(used):
    """Axioms for the literals that occur (names)."""
    out, names = [], []
    for s, c in _lits.items():
        if c.decl().name() in used:
            names.append(c)
            out.append(kind(c) == KS)
            if "sv" in used or "boxs" in used:
                out.append(sv(c) == z3.StringVal(s))
    if len(names) > 1:
        out.append(z3.Distinct(*names))
    return out


def _q(vs, body, pats):
    return z3.ForAll(vs, body, patterns=pats)


def _axioms():
    d, k, x, a = z3.Consts("d k x a", V)
    i = z3.Int("i")
    S = z3.Const("S", SetS)
    s = z3.Const("s", StrS)
    b = z3.Bool("b")
    ax = []

    def add(syms, f):
        ax.append((frozenset(syms), f))
    add(["kind"], _q([x], z3.And(kind(x) >= 0, kind(x) <= 6), [kind(x)]))
    add(["jlen"], _q([x], jlen(x) >= 0, [jlen(x)]))
    add(["nk"], _q([x], nk(x) >= 0, [nk(x)]))
    add(["key"], _q([d, i], z3.Implies(z3.And(kind(d) == KD, 0 <= i, i < nk(d)),
                                       z3.And(has(d, key(d, i)), kidx(d, key(d, i)) == i, kind(key(d, i)) == KS)), [key(d, i)]))
    add(["has"], _q([d, k], z3.Implies(z3.And(kind(d) == KD, has(d, k)),
                                       z3.And(0 <= kidx(d, k), kidx(d, k) < nk(d), key(d, kidx(d, k)) == k, kind(k) == KS)), [has(d, k)]))
    add(["mem", "at"], _q([x, i], z3.Implies(z3.And(kind(x) == KL, 0 <= i, i < jlen(x)), mem(x, at(x, i))), [at(x, i)]))
    add(["mem"], _q([x, a], z3.Implies(z3.And(kind(x) == KL, mem(x, a)),
                                       z3.And(0 <= pos(x, a), pos(x, a) < jlen(x), at(x, pos(x, a)) == a)), [mem(x, a)]))
    add(["boxi"], _q([i], z3.And(kind(boxi(i)) == KI, iv(boxi(i)) == i), [boxi(i)]))
    add(["boxb"], _q([b], z3.And(kind(boxb(b)) == KB, bv(boxb(b)) == b), [boxb(b)]))
    add(["boxs"], _q([s], z3.And(kind(boxs(s)) == KS, sv(boxs(s)) == s), [boxs(s)]))
    add(["sv"], _q([x], z3.Implies(kind(x) == KS, boxs(sv(x)) == x), [sv(x)]))
    add(["noneV"], kind(noneV) == KN)
    add(["card"], _q([S], z3.And(card(S) >= 0, (card(S) > 0) == S[cwit(S)]), [card(S)]))
    add(["card"], _q([S, x], z3.Implies(S[x], card(S) > 0), [z3.MultiPattern(card(S), S[x])]))
    T = z3.Const("T", SetS)
    add(["finite", "scount"], _q([i, S], z3.Implies(finite(S), scount(i, S) >= 0), [scount(i, S)]))
    j = z3.Int("j")
    add(["finite", "senum"], _q([i, j, S], z3.Implies(z3.And(finite(S), 0 <= j, j < scount(i, S)), z3.And(S[senum(i, S, j)], spos(i, S, senum(i, S, j)) == j)), [senum(i, S, j)]))
    add(["finite", "scount"], _q([i, S, x], z3.Implies(z3.And(finite(S), S[x]), z3.And(0 <= spos(i, S, x), spos(i, S, x) < scount(i, S), senum(i, S, spos(i, S, x)) == x)),
                                 [z3.MultiPattern(scount(i, S), S[x])]))
    for f, d, ps in ((set_union, z3.Or(S[x], T[x]), (S, T)), (set_intersection, z3.And(S[x], T[x]), (S, T)), (set_difference, z3.And(S[x], z3.Not(T[x])), (S,))):
        add([f.name()], _q([S, T, x], f(S, T)[x] == d, [f(S, T)[x]] + [z3.MultiPattern(f(S, T), p[x]) for p in ps]))
    add(["setof"], _q([x, a], z3.Implies(kind(x) == KL, setof(x)[a] == mem(x, a)), [setof(x)[a]]))
    add(["setof", "mem"], _q([x, a], z3.Implies(kind(x) == KL, setof(x)[a] == mem(x, a)), [z3.MultiPattern(mem(x, a), setof(x))]))
    add(["setof"], _q([x, a], z3.Implies(kind(x) == KD, setof(x)[a] == has(x, a)), [setof(x)[a]]))
    return ax


AXIOMS = _axioms()
EXTRA_AXIOMS = []   # (symbols, formula): spec-function definitions, added by contract files


# --- native strings: decimal text, with axioms instantiated on the ground terms that occur ---
S_dec = z3.Function("S_dec", IntS, StrS)      # str(n)
S_int = z3.Function("S_int", StrS, IntS)      # int(s) of a digit string
_D = z3.Range("0", "9")
DIGITS = z3.Plus(_D)
CANON = z3.Union(z3.Re("0"), z3.Concat(z3.Range("1", "9"), z3.Star(_D)))


def _g_dec(t):
    n = t.arg(0)
    return [z3.Implies(n >= 0, z3.And(z3.InRe(t, CANON), S_int(t) == n, (t == z3.StringVal("0")) == (n == 0))),
            z3.Implies(n < 0, z3.PrefixOf(z3.StringVal("-"), t))]


def _g_int(t):
    x = t.arg(0)
    if z3.is_string_value(x) and x.as_string().isdigit():
        return [t == int(x.as_string())]
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        a = x.children()
        if z3.is_string_value(a[0]) and len(a[0].as_string()) > 1 and a[0].as_string()[0] == "0":
            a = [z3.StringVal("0"), z3.StringVal(a[0].as_string()[1:])] + a[1:]
        rest = z3.Concat(*a[1:]) if len(a) > 2 else a[1]
        return [z3.Implies(z3.And(z3.InRe(a[0], z3.Star(z3.Re("0"))), z3.InRe(rest, DIGITS)), t == S_int(rest)),
                z3.Implies(z3.InRe(x, DIGITS), t >= 0)]
    return [z3.Implies(z3.InRe(x, DIGITS), z3.And(t >= 0, (t == 0) == z3.InRe(x, z3.Plus(z3.Re("0"))))),
            z3.Implies(z3.InRe(x, CANON), S_dec(t) == x)]


S_strip0 = z3.Function("S_strip0", StrS, StrS)    # str.strip()


def _g_strip(t):
    x = t.arg(0)
    out = [z3.Length(t) <= z3.Length(x)]
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        for k, o in ((-1, x.children()[:-1]), (0, x.children()[1:])):
            if z3.is_string_value(x.children()[k]) and x.children()[k].as_string() in ("\n", "\\u{a}", " "):
                out.append(t == S_strip0(z3.Concat(*o) if len(o) > 1 else o[0]))
    return out


GROUND = {"S_dec": _g_dec, "S_int": _g_int, "S_strip0": _g_strip}   # function -> instances of its axioms for one application


def ground(terms, rounds=2):
    names = set(GROUND)
    out, seen, todo = [], set(), [t for t in terms if symbols1(t) & names]
    for _ in range(rounds):
        new, stack, vis = [], list(todo), set()
        while stack:
            t = stack.pop()
            if t.get_id() in vis:
                continue
            vis.add(t.get_id())
            if z3.is_quantifier(t):
                continue
            if z3.is_app(t):
                g = GROUND.get(t.decl().name())
                if g and t.get_id() not in seen:
                    seen.add(t.get_id())
                    new += [(t, f) for f in g(t)]
                stack.extend(t.children())
        todo = [f for _, f in new]
        out += todo
        _keep.extend(new)
        if not todo:
            break
    return out


_keep = []


_sym_memo = {}


def symbols1(t):
    r = _sym_memo.get(t.get_id())
    if r is not None:
        return r[0]
    out, stack, seen = set(), [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        m = _sym_memo.get(i)
        if m is not None:
            out |= m[0]
            continue
        if z3.is_quantifier(x):
            stack.append(x.body())
            for p in range(x.num_patterns()):
                stack.append(x.pattern(p))
        elif z3.is_app(x):
            out.add(x.decl().name())
            stack.extend(x.children())
    _sym_memo[t.get_id()] = (frozenset(out), t)
    return out


def symbols(terms):
    out = set()
    for t in terms:
        out |= symbols1(t)
    return out


_str_memo = {}


def stringy(t):
    """Does the term use the theory of strings?"""
    r = _str_memo.get(t.get_id())
    if r is None:
        r = (any(n.startswith(("str.", "re.", "seq.")) for n in symbols1(t)), t)
        _str_memo[t.get_id()] = r
    return r[0]


_big = {}


def big_regex(t):
    """Does the term contain a regex with many character ranges (string solvers are slow on them)?"""
    r = _big.get(t.get_id())
    if r is None:
        n, stack, seen = 0, [t], set()
        while stack and n <= 40:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_RE_RANGE:
                n += 1
            stack.extend(x.children())
        r = (n > 40, t)
        _big[t.get_id()] = r
    return r[0]


def abstract_regexes(terms):
    """The formulas with every membership in a regular language replaced by a propositional variable (weaker as hypotheses)."""
    atoms, seen, stack = {}, set(), list(terms)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SEQ_IN_RE:
                if not has_var(x):
                    atoms[x.get_id()] = x
                continue
            stack.extend(x.children())
    subs = [(a, z3.Bool("re:%d" % i)) for i, a in enumerate(atoms.values())]
    return [z3.substitute(t, *subs) for t in terms] if subs else list(terms)


def has_var(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def background(terms):
    """Axioms relevant to the symbols of the given terms (closed under the axioms' own symbols)."""
    used = symbols(terms)
    todo = AXIOMS + EXTRA_AXIOMS
    chosen = []
    changed = True
    while changed:
        changed, rest = False, []
        for syms, f in todo:
            if syms <= used:
                chosen.append(f)
                used |= symbols([f])
                changed = True
            else:
                rest.append((syms, f))
        todo = rest
    g = ground(list(terms))
    if g:
        used |= symbols(g)
    return chosen + g + lit_axioms(used)


class Sym:
    __slots__ = ("sort", "t", "parts")

    def __init__(self, sort, t, parts=None):
        self.sort, self.t, self.parts = sort, t, parts

    def __repr__(self):
        return "Sym(%s,%s)" % (self.sort, str(self.t)[:120])


class Opaque:
    """A value about which nothing is known (messages, log arguments)."""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Opaque(%s)" % self.why


class Undef:
    def __repr__(self):
        return "Undef"


UNDEF = Undef()


class Union:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Union(%r)" % (self.alts,)


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(self.oid)

    def __repr__(self):
        return "Ref%d" % self.oid


class Func:
    __slots__ = ("mod", "cls", "node", "self_", "closure")

    def __init__(self, mod, cls, node, self_=None, closure=None):
        self.mod, self.cls, self.node, self.self_, self.closure = mod, cls, node, self_, closure

    @property
    def qual(self):
        return ".".join([self.mod.name] + ([self.cls.name] if self.cls else []) + [getattr(self.node, "name", "<lambda>")])

    def __repr__(self):
        return "Func(%s)" % self.qual


class ClassV:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.info is self.info

    def __hash__(self):
        return hash(id(self.info))


class Ext:
    """External (library) object or function known by dotted name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Ext(%s)" % self.name


class Bound:
    """Method `name` of a non-instance receiver value."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Exc:
    """Exception value: builtin class or repo ClassInfo."""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    @property
    def name(self):
        return self.cls.__name__ if isinstance(self.cls, type) else self.cls.name

    def __repr__(self):
        return "Exc(%s)" % self.name


# --- heap objects (immutable; the heap maps oid -> object) ---
class Inst:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class ListObj:
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)


class DictObj:
    __slots__ = ("items",)

    def __init__(self, items=None):
        self.items = dict(items or {})


class SetObj:
    """Set of V values; births: ghost index (per enclosing loop) at which an element was first added."""
    __slots__ = ("arr", "births")

    def __init__(self, arr, births=()):
        self.arr, self.births = arr, tuple(births)


class MapObj:
    """dict with symbolic keys; val is an array V -> vs."""
    __slots__ = ("dom", "val", "births")

    def __init__(self, dom, val, births=()):
        self.dom, self.val, self.births = dom, val, tuple(births)


class AccList:
    """List abstracted to the set of its elements and its length; seq (array index -> element) when the order is known."""
    __slots__ = ("arr", "len", "births", "seq")

    def __init__(self, arr, len_, births=(), seq=None):
        self.arr, self.len, self.births, self.seq = arr, len_, tuple(births), seq

    def seqfacts(self, full=True):
        """The elements of seq are the elements of arr."""
        j, x = z3.Int("j"), z3.Const("x", V)
        p = z3.Function("seqpos!%d" % next(_cnt), V, IntS)
        s = self.seq
        if z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            p1 = [s[j]]
        else:
            p1 = None
        b1 = z3.Implies(z3.And(0 <= j, j < self.len), self.arr[s[j]])
        b2 = z3.Implies(self.arr[x], z3.And(0 <= p(x), p(x) < self.len, s[p(x)] == x))
        a = self.arr
        p2 = [a[x]] if not z3.is_quantifier(a) and z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_STORE) else [p(x)]
        return [z3.ForAll([j], b1, patterns=p1) if p1 else z3.ForAll([j], b1), z3.ForAll([x], b2, patterns=p2)]


class JoinList:
    """List of native strings abstracted to its "/"-joined text, its length and whether every element is a plain segment
    (not empty, no slash)."""

    def __init__(self, text, n, clean):
        self.text, self.n, self.clean = text, n, clean

    @staticmethod
    def of(items, term):
        o = JoinList(z3.StringVal(""), z3.IntVal(0), z3.BoolVal(True))
        for x in items:
            o = o.plus(term(x))
        return o

    def plus(self, x):
        sl = z3.StringVal("/")
        return JoinList(z3.simplify(z3.If(self.n == 0, x, z3.Concat(self.text, sl, x))), z3.simplify(self.n + 1),
                        z3.And(self.clean, x != z3.StringVal(""), z3.Not(z3.Contains(x, sl))))

    def same(self, o):
        return self.text.eq(o.text) and self.n.eq(o.n) and self.clean.eq(o.clean)

    def havoc(self, eng):
        return JoinList(fresh("str", "joined"), fresh("int", "count"), fresh("bool", "clean"))

    def merge(self, eng, g, o):
        return JoinList(z3.If(g, self.text, o.text), z3.If(g, self.n, o.n), z3.If(g, self.clean, o.clean))

    def method(self, eng, st, r, name, a, kw, node):
        if name == "append" and len(a) == 1:
            s = st.copy()
            s.heap[r.oid] = self.plus(eng.tostr(a[0]))
            return [(s, None)]
        raise Unsupported("list method %s" % name, node)


class StarJoin:
    """The elements of a JoinList as arguments of a call."""

    def __init__(self, o):
        self.o = o


EMPTY = z3.K(V, z3.BoolVal(False))
SeqS = z3.ArraySort(IntS, V)


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        self.msg, self.node = msg, node
        line = getattr(node, "lineno", None)
        super().__init__(msg + (" (line %s)" % line if line else ""))
