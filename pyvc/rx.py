"""Regular expressions: Python syntax -> z3 regular languages, with capture groups as string decompositions."""
import re
import re._constants as C
import re._parser as P

import z3

from . import values as V_
from . import reg
from .values import Sym, Opaque, Bound, Unsupported, fresh, sv, StrS, BoolS, V

MAXC = 0x2FFFF


class Pattern:
    def __init__(self, pat, flags=()):
        self.pat, self.flags = pat, tuple(flags)

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def truth(self, eng, st):
        return [(st, True)]

    def method(self, eng, st, name, a, kw, node):
        if name in ("match", "fullmatch", "search"):
            return eng.B.X.rematch(st, self, a[0], None, name, node)
        raise Unsupported("pattern method " + name, node)


def fset(flags):
    f = 0
    for x in flags:
        f |= {"I": re.I, "IGNORECASE": re.I, "A": re.A, "ASCII": re.A, "S": re.S, "DOTALL": re.S, "M": re.M, "MULTILINE": re.M}[x]
    return f


_cls = {}


def cls_ranges(cat, ascii_):
    """Code point ranges of a category escape, from Python's own re."""
    k = (cat, ascii_)
    if k not in _cls:
        p = re.compile({C.CATEGORY_DIGIT: r"\d", C.CATEGORY_SPACE: r"\s", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_DIGIT: r"\D",
                        C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_NOT_WORD: r"\W"}[cat], re.A if ascii_ else 0)
        out, start = [], None
        for c in range(MAXC + 1):
            ok = p.match(chr(c)) is not None
            if ok and start is None:
                start = c
            if not ok and start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, MAXC))
        _cls[k] = out
    return _cls[k]


def norm(ranges):
    rs = sorted(ranges)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def compl(ranges):
    out, n = [], 0
    for a, b in norm(ranges):
        if a > n:
            out.append((n, a - 1))
        n = b + 1
    if n <= MAXC:
        out.append((n, MAXC))
    return out


def casefold(ranges):
    out = list(ranges)
    for a, b in ranges:
        if b - a < 3000:
            for c in range(a, b + 1):
                for d in (chr(c).lower(), chr(c).upper()):
                    if len(d) == 1:
                        out.append((ord(d), ord(d)))
    return out


def ch(c):
    return z3.StringVal("\\u{%x}" % c) if c > 126 or c < 32 or c == 92 else z3.StringVal(chr(c))


def re_ranges(ranges):
    rs = norm(ranges)
    if not rs:
        return z3.Empty(z3.ReSort(StrS))
    ts = [z3.Range(ch(a), ch(b)) if a != b else z3.Re(ch(a)) for a, b in rs]
    return z3.Union(*ts) if len(ts) > 1 else ts[0]


ANY = z3.Full(z3.ReSort(StrS))
ALLCH = z3.AllChar(z3.ReSort(StrS))


def cat(xs):
    xs = [x for x in xs if x is not None]
    if not xs:
        return z3.Re("")
    return z3.Concat(*xs) if len(xs) > 1 else xs[0]


def in_ranges(items, flags):
    rs, negate = [], False
    for op, av in items:
        if op == C.NEGATE:
            negate = True
        elif op == C.LITERAL:
            rs.append((av, av))
        elif op == C.RANGE:
            rs.append(av)
        elif op == C.CATEGORY:
            rs += cls_ranges(av, bool(flags & re.A))
        else:
            raise Unsupported("regex class %s" % op)
    if flags & re.I:
        rs = casefold(rs)
    return compl(rs) if negate else norm(rs)


def tore(seq, flags):
    """Language of a parsed sequence without anchors."""
    out = []
    for op, av in seq:
        out.append(item(op, av, flags))
    return cat(out)


def item(op, av, flags):
    if op == C.LITERAL:
        return re_ranges(casefold([(av, av)]) if flags & re.I else [(av, av)])
    if op == C.NOT_LITERAL:
        return re_ranges(compl([(av, av)]))
    if op == C.ANY:
        return ALLCH if flags & re.S else re_ranges(compl([(10, 10)]))
    if op == C.IN:
        return re_ranges(in_ranges(av, flags))
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        r = tore(sub, flags)
        if hi == C.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if op == C.SUBPATTERN:
        return tore(av[3], flags)
    if op == C.BRANCH:
        bs = [tore(b, flags) for b in av[1]]
        return z3.Union(*bs) if len(bs) > 1 else bs[0]
    raise Unsupported("regex operator %s" % op)


def parse(pat, flags, how):
    """(list of parsed items, prefix-any?, tail) ; tail in exact / newline / any."""
    f = fset(flags)
    tree = list(P.parse(pat, f))
    f |= P.parse(pat, f).state.flags & (re.I | re.A | re.S | re.M)
    if f & re.M:
        raise Unsupported("multiline regex")
    start_any = how == "search"
    while tree and tree[0][0] == C.AT and tree[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        tree.pop(0)
        start_any = False
    tail = "exact" if how == "fullmatch" else "any"
    while tree and tree[-1][0] == C.AT and tree[-1][1] in (C.AT_END, C.AT_END_STRING):
        a = tree.pop()[1]
        if how == "fullmatch":
            tail = "exact"
        elif a == C.AT_END_STRING:
            tail = "exact"
        else:
            tail = "newline" if tail == "any" else tail
    return tree, f, start_any, tail


def language(pat, flags, how):
    """z3 regex: strings s for which re.<how>(pat, s, flags) matches."""
    tree, f, start_any, tail = parse(pat, flags, how)
    parts = [ANY] if start_any else []
    parts.append(tore(tree, f))
    if tail == "any":
        parts.append(ANY)
    elif tail == "newline":
        parts.append(z3.Option(z3.Re(ch(10))))
    return cat(parts)


class MatchV:
    """Match object; groups are created on first access (as facts on the path)."""

    def __init__(self, groups):
        self.groups = groups

    def truth(self, eng, st):
        return [(st, True)]

    def getattr(self, eng, st, name, node):
        return [(st, Bound(self, name))]

    def getitem(self, eng, st, a, k, node):
        return [(st, self.groups[k])]

    def method(self, eng, st, name, a, kw, node):
        if name == "group":
            if not a:
                return [(st, self.groups[0])]
            if len(a) == 1:
                return [(st, self.groups[a[0]])]
            return [(st, tuple(self.groups[x] for x in a))]
        if name == "groups":
            return [(st, tuple(self.groups[i] for i in range(1, len(self.groups))))]
        return [(st, Opaque("match." + name))]


def ngroups(pat):
    return re.compile(pat).groups


def match(eng, st, pat, flags, how, s, node):
    if isinstance(s, str):
        m = getattr(re, how)(pat, s, fset(flags))
        if m is None:
            return [(st, None)]
        return [(st, MatchV({0: m.group(0), **{i + 1: g for i, g in enumerate(m.groups())}}))]
    R = language(pat, flags, how)
    if isinstance(s, Sym) and s.sort == "V":
        if ngroups(pat) == 0 or not uses_groups(eng, node):
            # abstract predicate of the language
            p = lang_pred(R)(s.t)
            y, n = eng.fork(st, p)
            return ([(y, MatchV({0: Opaque("m")}))] if y is not None else []) + ([(n, None)] if n is not None else [])
        t = sv(s.t)
    else:
        t = s.t
    y, n = eng.fork(st, z3.InRe(t, R))
    out = []
    if y is not None:
        out += decompose(eng, y, pat, flags, how, t)
    if n is not None:
        out.append((n, None))
    return out


def uses_groups(eng, node):
    return True


_langs = []


def lang_pred(R):
    """Uninterpreted predicate on V for a language; equal languages share the predicate."""
    for (r, p) in _langs:
        if r.eq(R):
            return p
    for (r, p) in _langs:
        try:
            if reg.included(R, r) and reg.included(r, R):
                _langs.append((R, p))
                return p
        except reg.NotRegular:
            pass
    p = z3.Function("lang%d" % len(_langs), V, BoolS)
    _langs.append((R, p))
    return p


def decompose(eng, st, pat, flags, how, t):
    """States with a MatchV; the subject is split into one string variable per captured piece."""
    tree, f, start_any, tail = parse(pat, flags, how)
    ng = ngroups(pat)
    alts = pieces(tree, f)
    out = []
    if ng == 0:
        s = st
        return [(s, MatchV({0: Opaque("m")}))]
    for ps, nones in alts:
        s = st.copy()
        g = {i: None for i in nones}
        ts = []
        if start_any:
            x = fresh("str", "pre")
            ts.append(x)
        sub = []
        emit(s, ps, sub, g)
        ts += sub
        if tail != "any":
            if tail == "newline":
                x = fresh("str", "nl")
                s.assume_(z3.Or(x == z3.StringVal(""), x == z3.StringVal("\n")))
                ts.append(x)
        else:
            po = greedy_end(tree, f)
            if po is None:
                ts.append(fresh("str", "post"))
            elif po is not NOTHING:
                x = fresh("str", "post")
                s.assume_(z3.InRe(x, po))
                ts.append(x)
        g[0] = Sym("str", z3.Concat(*sub) if len(sub) > 1 else sub[0])
        for i in range(1, ng + 1):
            g.setdefault(i, None)
        sol = solve_eq(t, ts)
        if sol is False:
            continue
        if sol is None:
            al = align(s, t, ts)
        else:
            al = [(sol, [])]
        if al is None:
            s.assume_(t == (z3.Concat(*ts) if len(ts) > 1 else ts[0]))
            if eng.feasible(s):
                out.append((s, MatchV(g)))
            continue
        for sol, extra in al:
            s1 = s.copy()
            g1 = dict(g)
            n0 = len(st.pc)
            new = [z3.substitute(f, sol) for f in s1.pc[n0:]]
            s1.pc = s1.pc[:n0]
            for f in new + extra:
                s1.assume_(f)
            for i, x in g1.items():
                if isinstance(x, Sym):
                    g1[i] = Sym("str", z3.substitute(x.t, sol))
            if eng.feasible(s1):
                out.append((s1, MatchV(g1)))
    return out


NOTHING = object()


def greedy_end(seq, f):
    """What can follow a match that ends with a greedy unbounded repetition of a character class (None: anything)."""
    if not seq:
        return None
    op, av = seq[-1]
    if op == C.SUBPATTERN:
        return greedy_end(list(av[3]), f)
    if op != C.MAX_REPEAT or av[1] != C.MAXREPEAT or len(av[2]) != 1:
        return None
    op2, av2 = av[2][0]
    if op2 not in (C.ANY, C.IN, C.LITERAL, C.NOT_LITERAL):
        return None
    if op2 == C.ANY and f & re.S:
        return NOTHING
    one = item(op2, av2, f)
    other = z3.Intersect(z3.AllChar(z3.ReSort(StrS)), z3.Complement(one))
    return z3.Option(z3.Concat(other, z3.Full(z3.ReSort(StrS))))


def known_lang(pc):
    """Languages of string constants according to the path condition."""
    by = {}
    for f in pc:
        for h in (f.children() if z3.is_and(f) else [f]):
            n = False
            while z3.is_not(h):
                h, n = h.arg(0), not n
            if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_SEQ_IN_RE and not z3.is_string_value(h.arg(0)):
                try:
                    r = reg.conv(h.arg(1))
                except reg.NotRegular:
                    continue
                by.setdefault(h.arg(0).get_id(), []).append(reg.neg(r) if n else r)
    return {k: reg.conj(v) for k, v in by.items()}


def align(s, t, ts, limit=48):
    """All ways the pieces ts (fresh constants and literals) can lie on the tokens of t, as substitutions for the pieces plus
    equations for split tokens; None when there are too many."""
    A = [y for x in flat(t) for y in ([z3.StringVal(c) for c in chars(x)] if z3.is_string_value(x) else [x])]
    B = [y for x in ts for z in flat(x) for y in ([z3.StringVal(c) for c in chars(z)] if z3.is_string_value(z) else [z])]
    if len(A) < 2 or any(not z3.is_const(x) and not z3.is_string_value(x) for x in A + B):
        return None
    lang = known_lang(s.pc)
    L = [reg.conv(z3.Re(x)) if z3.is_string_value(x) else lang.get(x.get_id(), reg.ALL) for x in A]
    R = [reg.conv(z3.Re(x)) if z3.is_string_value(x) else lang.get(x.get_id(), reg.ALL) for x in B]
    seqs = alignments(L, R, limit)
    if seqs is None:
        return None
    out = []
    for seq in seqs:
        i = j = 0
        ta, tb = [[] for _ in A], [[] for _ in B]
        nseg = 0
        for e in seq:
            ta[i].append(nseg)
            tb[j].append(nseg)
            nseg += 1
            if e in ("T", "B"):
                i += 1
            if e in ("P", "B"):
                j += 1
        if i < len(A) or j < len(B):
            continue
        term, extra = {}, []
        for x, segs, lg in zip(A, ta, L):
            if len(segs) == 1:
                term[segs[0]] = x
            else:
                vs = [fresh("str", "seg") for _ in segs]
                for k, v in zip(segs, vs):
                    term[k] = v
                    ab = alphabet(lg)
                    if ab is not None:
                        extra.append(z3.InRe(v, ab))
                extra.append(x == z3.Concat(*vs))
        sub = []
        for y, segs in zip(B, tb):
            u = [term[k] for k in segs]
            u = z3.Concat(*u) if len(u) > 1 else u[0]
            if z3.is_string_value(y):
                if not (z3.is_string_value(u) and u.as_string() == y.as_string()):
                    extra.append(u == y)
            else:
                sub.append((y, u))
        out.append((sub, extra))
    return out


def alphabet(r):
    """Star of the character classes of a language (None when it is everything)."""
    if r == reg.ALL or r[0] in ("~", "&"):
        return None
    acc = set()
    reg.classes(r, acc)
    rs = [x for c in acc for x in c]
    if any(a == 0 and b >= reg.MAXC for a, b in rs):
        return None
    return z3.Star(re_ranges(norm(rs)))


def alignments(L, R, limit):
    """Feasible orders of token ends (T), piece ends (P) and common ends (B)."""
    n, m = len(L), len(R)
    reps = reg.representatives(reg.alt([x for x in L + R]) if False else ("|", frozenset(L + R)))
    # graph over (i, rest of token i, j, rest of piece j)
    start = (0, L[0], 0, R[0])
    END = "end"
    succ = {}

    def tok(i):
        return L[i] if i < n else reg.EMPTYR

    def pie(j):
        return R[j] if j < m else reg.EMPTYR

    def edges(x):
        i, r, j, q = x
        out = []
        for c in reps:
            a, b = reg.deriv(r, c), reg.deriv(q, c)
            if a != reg.EMPTYR and b != reg.EMPTYR:
                out.append(("c", (i, a, j, b)))
        nr, nq = i < n and reg.nullable(r), j < m and reg.nullable(q)
        if nr and nq:
            if i + 1 == n and j + 1 == m:
                out.append(("B", END))
            elif i + 1 < n and j + 1 < m:
                out.append(("B", (i + 1, L[i + 1], j + 1, R[j + 1])))
            elif i + 1 == n and j + 1 < m:       # the pieces left have to be empty
                out.append(("P", (i, reg.EPS, j + 1, R[j + 1])))
            elif j + 1 == m and i + 1 < n:
                out.append(("T", (i + 1, L[i + 1], j, reg.EPS)))
        if nr and i + 1 < n:
            out.append(("T", (i + 1, L[i + 1], j, q)))
        if nq and j + 1 < m:
            out.append(("P", (i, r, j + 1, R[j + 1])))
        return out
    todo = [start]
    while todo:
        x = todo.pop()
        if x in succ or x == END:
            continue
        succ[x] = edges(x)
        if len(succ) > 6000:
            return None
        todo += [y for _, y in succ[x]]
    pred = {}
    for x, es in succ.items():
        for _, y in es:
            pred.setdefault(y, []).append(x)
    good, todo = set(), [END]
    while todo:
        x = todo.pop()
        if x in good:
            continue
        good.add(x)
        todo += pred.get(x, [])
    if start not in good:
        return []
    out = []

    def closure(xs):
        seen, st = set(xs), list(xs)
        while st:
            x = st.pop()
            if x == END:
                continue
            for e, y in succ[x]:
                if e == "c" and y in good and y not in seen:
                    seen.add(y)
                    st.append(y)
        return frozenset(seen)

    def nonempty(xs):
        return closure({y for x in xs if x != END for e, y in succ[x] if e == "c" and y in good})

    def go(xs, last, seq):
        """xs: nodes right after the last event."""
        if len(out) > limit:
            return
        if END in xs:
            out.append(seq)
        for e in ("T", "P", "B"):
            # a token end and a piece end that coincide are one event: T and P need something between them
            src = nonempty(xs) if {last, e} == {"T", "P"} else closure(xs)
            nx = {y for x in src if x != END for e2, y in succ[x] if e2 == e and y in good}
            if nx:
                go(frozenset(nx), e, seq + [e])
    go(frozenset([start]), "B", [])
    if len(out) > limit:
        return None
    return out


def flat(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in flat(x)]
    if z3.is_string_value(t) and t.as_string() == "":
        return []
    return [t]


def solve_eq(t, ts):
    """Word equation t == Concat(ts): strip common literal ends; a substitution when one fresh piece is left, False when
    the literal ends clash, None when it has to be left to the solver."""
    l = [y for x in flat(t) for y in ([("c", c) for c in chars(x)] if z3.is_string_value(x) else [x])]
    r = [y for t1 in ts for x in flat(t1) for y in ([("c", c) for c in chars(x)] if z3.is_string_value(x) else [x])]

    def is_c(x):
        return isinstance(x, tuple)

    def same(a, b):
        return a == b if is_c(a) and is_c(b) else (not is_c(a) and not is_c(b) and a.eq(b))
    for end in (0, -1):
        while l and r:
            if is_c(l[end]) and is_c(r[end]) and l[end] != r[end]:
                return False
            if not same(l[end], r[end]):
                break
            l.pop(end)
            r.pop(end)
    if not l and not r:
        return []
    if len(r) == 1 and not is_c(r[0]) and z3.is_const(r[0]):
        ps = [z3.StringVal(x[1]) if is_c(x) else x for x in l]
        return [(r[0], z3.Concat(*ps) if len(ps) > 1 else (ps[0] if ps else z3.StringVal("")))]
    return None


def chars(x):
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), x.as_string())


def emit(s, ps, ts, g):
    for p in ps:
        if p[0] == "lang":
            if p[2] is not None:
                ts.append(z3.StringVal(p[2]))
            else:
                x = fresh("str", "p")
                s.assume_(z3.InRe(x, p[1]))
                ts.append(x)
        else:
            sub = []
            emit(s, p[2], sub, g)
            x = z3.Concat(*sub) if len(sub) > 1 else (sub[0] if sub else z3.StringVal(""))
            g[p[1]] = Sym("str", x)
            ts.append(x)


def has_group(seq):
    for op, av in seq:
        if op == C.SUBPATTERN:
            if av[0] is not None or has_group(av[3]):
                return True
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_group(av[2]):
            return True
        elif op == C.BRANCH and any(has_group(b) for b in av[1]):
            return True
    return False


def groups_in(seq):
    out = []
    for op, av in seq:
        if op == C.SUBPATTERN:
            if av[0] is not None:
                out.append(av[0])
            out += groups_in(av[3])
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            out += groups_in(av[2])
        elif op == C.BRANCH:
            for b in av[1]:
                out += groups_in(b)
    return out


def pieces(seq, f):
    """Alternative decompositions: list of (piece list, groups that did not take part)."""
    alts = [([], [])]

    def add_lang(r, litc):
        for ps, _ in alts:
            if litc is not None and ps and ps[-1][0] == "lang" and ps[-1][2] is not None:
                ps[-1] = ("lang", None, ps[-1][2] + litc)
            elif litc is None and ps and ps[-1][0] == "lang" and ps[-1][2] is None:
                ps[-1] = ("lang", z3.Concat(ps[-1][1], r), None)
            else:
                ps.append(("lang", r, litc))
    for op, av in seq:
        if op == C.LITERAL and not f & re.I:
            add_lang(None, chr(av))
        elif op == C.SUBPATTERN and (av[0] is not None or has_group(av[3])):
            sub = pieces(av[3], f)
            new = []
            for ps, no in alts:
                for sp, sno in sub:
                    new.append((list(ps) + ([("grp", av[0], sp)] if av[0] is not None else list(sp)), no + sno))
            alts = new
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_group(av[2]):
            if (av[0], av[1]) != (0, 1):
                raise Unsupported("capture group in a repetition")
            sub = pieces(av[2], f)
            new = []
            for ps, no in alts:
                for sp, sno in sub:
                    new.append((list(ps) + list(sp), no + sno))
                new.append((list(ps), no + groups_in(av[2])))
            alts = new
        elif op == C.BRANCH and any(has_group(b) for b in av[1]):
            new = []
            allg = groups_in([(op, av)])
            for b in av[1]:
                mine = groups_in(b)
                for ps, no in alts:
                    for sp, sno in pieces(b, f):
                        new.append((list(ps) + list(sp), no + sno + [x for x in allg if x not in mine]))
            alts = new
        elif op == C.AT:
            raise Unsupported("anchor inside a regex")
        else:
            add_lang(item(op, av, f), None)
    return alts


_subs = {}


def sub_function(pat, repl):
    """The function that replaces each character of a class by a fixed text."""
    tree = P.parse(pat, 0)
    if len(tree) != 1 or tree[0][0] not in (C.IN, C.NOT_LITERAL, C.LITERAL):
        raise Unsupported("re.sub with %r" % pat)
    op, av = tree[0]
    rs = in_ranges(av, 0) if op == C.IN else (compl([(av, av)]) if op == C.NOT_LITERAL else [(av, av)])
    k = (tuple(map(tuple, rs)), repl)
    if k not in _subs:
        n = "S_sub%d" % len(_subs)
        f = z3.Function(n, StrS, StrS)
        _subs[k] = f
        keep = re_ranges(compl(rs))

        def axioms(t, keep=keep, repl=repl):
            u = t.arg(0)
            out = [z3.InRe(t, z3.Star(z3.Union(keep, z3.Re(repl)))), z3.Implies(z3.InRe(u, z3.Star(keep)), t == u)]
            if len(repl) == 1:
                out.append(z3.Length(t) == z3.Length(u))
            return out
        V_.GROUND[n] = axioms
    return _subs[k]
