"""Emptiness of boolean combinations of regular expressions by derivatives (for large Unicode classes, where z3 is slow)."""
import re as _re

import z3

MAXC = 0x2FFFF
_memo = {}

EMPTYR = ("0",)
EPS = ("e",)


def charval(t):
    s = z3.simplify(t)
    s = _re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s.as_string())
    return s


def cls(ranges):
    rs = sorted(ranges)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return ("c", tuple(out)) if out else EMPTYR


def cat(a, b):
    if a == EMPTYR or b == EMPTYR:
        return EMPTYR
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == ".":
        return cat(a[1], cat(a[2], b))
    return (".", a, b)


ALL = ("*", ("c", ((0, MAXC),)))
NONE_EMPTY = None


def alt(xs):
    s = set()
    for x in xs:
        if x[0] == "|":
            s |= x[1]
        elif x != EMPTYR:
            s.add(x)
    if ALL in s:
        return ALL
    cl = [x for x in s if x[0] == "c"]
    if len(cl) > 1:
        s -= set(cl)
        s.add(cls([r for c in cl for r in c[1]]))
    if not s:
        return EMPTYR
    return next(iter(s)) if len(s) == 1 else ("|", frozenset(s))


def conj(xs):
    s = set()
    for x in xs:
        if x[0] == "&":
            s |= x[1]
        elif x == EMPTYR:
            return EMPTYR
        elif x != ALL:
            s.add(x)
    if not s:
        return ALL
    return next(iter(s)) if len(s) == 1 else ("&", frozenset(s))


def neg(x):
    if x[0] == "~":
        return x[1]
    if x == EMPTYR:
        return ALL
    if x == ALL:
        return EMPTYR
    return ("~", x)


def star(x):
    if x in (EMPTYR, EPS):
        return EPS
    return x if x[0] == "*" else ("*", x)


def conv(r):
    k = r.get_id()
    if k in _memo:
        return _memo[k][0]
    o = _conv(r)
    _memo[k] = (o, r)
    return o


class NotRegular(Exception):
    pass


def _conv(r):
    op = r.decl().kind()
    ch = r.children()
    if op == z3.Z3_OP_SEQ_TO_RE:
        if not z3.is_string_value(ch[0]):
            raise NotRegular()
        o = EPS
        for c in reversed(charval(ch[0])):
            o = cat(("c", ((ord(c), ord(c)),)), o)
        return o
    if op == z3.Z3_OP_RE_RANGE:
        a, b = charval(ch[0]), charval(ch[1])
        return cls([(ord(a), ord(b))]) if ord(a) <= ord(b) else EMPTYR
    if op == z3.Z3_OP_RE_CONCAT:
        o = EPS
        for c in reversed(ch):
            o = cat(conv(c), o)
        return o
    if op == z3.Z3_OP_RE_UNION:
        todo, flat = list(ch), []
        while todo:                    # long unions come as nested pairs
            x = todo.pop()
            if x.decl().kind() == z3.Z3_OP_RE_UNION:
                todo += x.children()
            else:
                flat.append(conv(x))
        return alt(flat)
    if op == z3.Z3_OP_RE_INTERSECT:
        return conj([conv(c) for c in ch])
    if op == z3.Z3_OP_RE_COMPLEMENT:
        return neg(conv(ch[0]))
    if op == z3.Z3_OP_RE_STAR:
        return star(conv(ch[0]))
    if op == z3.Z3_OP_RE_PLUS:
        x = conv(ch[0])
        return cat(x, star(x))
    if op == z3.Z3_OP_RE_OPTION:
        return alt([EPS, conv(ch[0])])
    if op == z3.Z3_OP_RE_LOOP:
        ps = r.params()
        x = conv(ch[0])
        lo = ps[0]
        o = EPS
        if len(ps) > 1:
            hi = ps[1]
            if hi > 200:
                raise NotRegular()
            for _ in range(hi - lo):
                o = alt([EPS, cat(x, o)])
        else:
            o = star(x)
        for _ in range(lo):
            o = cat(x, o)
        return o
    if op == z3.Z3_OP_RE_FULL_SET:
        return ALL
    if op == z3.Z3_OP_RE_EMPTY_SET:
        return EMPTYR
    if op == z3.Z3_OP_RE_FULL_CHAR_SET:
        return ("c", ((0, MAXC),))
    raise NotRegular()


_nul, _der = {}, {}


def nullable(r):
    if r in _nul:
        return _nul[r]
    t = r[0]
    v = (t in ("e", "*") or t == "." and nullable(r[1]) and nullable(r[2]) or t == "|" and any(nullable(x) for x in r[1]) or
         t == "&" and all(nullable(x) for x in r[1]) or t == "~" and not nullable(r[1]))
    _nul[r] = v
    return v


def deriv(r, c):
    k = (r, c)
    if k in _der:
        return _der[k]
    t = r[0]
    if t in ("0", "e"):
        v = EMPTYR
    elif t == "c":
        v = EPS if any(a <= c <= b for a, b in r[1]) else EMPTYR
    elif t == ".":
        v = cat(deriv(r[1], c), r[2])
        if nullable(r[1]):
            v = alt([v, deriv(r[2], c)])
    elif t == "|":
        v = alt([deriv(x, c) for x in r[1]])
    elif t == "&":
        v = conj([deriv(x, c) for x in r[1]])
    elif t == "*":
        v = cat(deriv(r[1], c), r)
    else:
        v = neg(deriv(r[1], c))
    _der[k] = v
    return v


def classes(r, acc):
    t = r[0]
    if t == "c":
        acc.add(r[1])
    elif t == ".":
        classes(r[1], acc)
        classes(r[2], acc)
    elif t in ("|", "&"):
        for x in r[1]:
            classes(x, acc)
    elif t in ("*", "~"):
        classes(r[1], acc)


def representatives(r):
    acc = set()
    classes(r, acc)
    pts = {0}
    for c in acc:
        for a, b in c:
            pts.add(a)
            if b < MAXC:
                pts.add(b + 1)
    seen, out = set(), []
    cs = list(acc)
    for p in sorted(pts):
        sig = tuple(any(a <= p <= b for a, b in c) for c in cs)
        if sig not in seen:
            seen.add(sig)
            out.append(p)
    return out


def empty(r, limit=4000):
    """Is the language empty? None when the search grows beyond the limit."""
    reps = representatives(r)
    seen, todo = {r}, [r]
    while todo:
        x = todo.pop()
        if nullable(x):
            return False
        for c in reps:
            y = deriv(x, c)
            if y != EMPTYR and y not in seen:
                seen.add(y)
                todo.append(y)
                if len(seen) > limit:
                    return None
    return True


def flatten(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in flatten(x)]
    return [t]


def texteq(f):
    """A (negated) equation of texts, or a disjunction of such."""
    if z3.is_not(f):
        return texteq(f.arg(0))
    return z3.is_eq(f) and f.arg(0).sort() == z3.StringSort() or z3.is_or(f) and all(texteq(g) for g in f.children())


def alternatives(f):
    """x == const or x == const or ..."""
    return z3.is_or(f) and all(z3.is_eq(g) and z3.is_string_value(g.arg(1)) and g.arg(0).eq(f.arg(0).arg(0)) for g in f.children())


def contradictory(lits):
    """Do the literals InRe(x,R) / Not(InRe(x,R)) / x == const on one subject clash?"""
    by, subj = {}, {}
    eqs = []
    pos, negs = set(), set()
    for f in lits:
        n = False
        while z3.is_not(f):
            f, n = f.arg(0), not n
        (negs if n else pos).add(f.get_id())
        if z3.is_eq(f) and not n and f.arg(0).sort() == z3.StringSort():
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_app_of(b, z3.Z3_OP_SEQ_CONCAT) and not z3.is_app_of(a, z3.Z3_OP_SEQ_CONCAT):
                    eqs.append((a, b))
        if not n and alternatives(f):
            x, r = f.arg(0).arg(0), alt([conv(z3.Re(g.arg(1))) for g in f.children()])
        elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_SEQ_IN_RE:
            try:
                r = conv(f.arg(1))
            except NotRegular:
                continue
            x = f.arg(0)
        elif z3.is_eq(f) and f.arg(0).sort() == z3.StringSort() and (z3.is_string_value(f.arg(1)) or z3.is_string_value(f.arg(0))):
            x, k = (f.arg(0), f.arg(1)) if z3.is_string_value(f.arg(1)) else (f.arg(1), f.arg(0))
            r = conv(z3.Re(k))
        elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_SEQ_PREFIX and z3.is_string_value(f.arg(0)):
            x, r = f.arg(1), cat(conv(z3.Re(f.arg(0))), ALL)
        elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_SEQ_SUFFIX and z3.is_string_value(f.arg(0)):
            x, r = f.arg(1), cat(ALL, conv(z3.Re(f.arg(0))))
        elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(f.arg(1)):
            x, r = f.arg(0), cat(ALL, cat(conv(z3.Re(f.arg(1))), ALL))
        else:
            continue
        by.setdefault(x.get_id(), []).append(neg(r) if n else r)
        subj[x.get_id()] = x
    if pos & negs:
        return True
    for a, b in eqs:
        r = EPS
        for y in reversed(flatten(b)):
            r = cat(conv(z3.Re(y)) if z3.is_string_value(y) else conj(by.get(y.get_id(), [ALL])), r)
        by.setdefault(a.get_id(), []).append(r)
    for i, x in subj.items():
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            parts = []
            for y in flatten(x):
                if z3.is_string_value(y):
                    parts.append(conv(z3.Re(y)))
                else:
                    parts.append(conj(by.get(y.get_id(), [ALL])))
            r = EPS
            for q in reversed(parts):
                r = cat(q, r)
            by[i].append(r)
    for rs in by.values():
        if len(set(rs)) > 1 or len(rs) == 1:
            if empty(conj(rs)):
                return True
    return False


def included(r, s):
    """Language inclusion of two z3 regexes (None: unknown)."""
    return empty(conj([conv(r), neg(conv(s))]))


def lits_of(f):
    """Flat list of conjuncts; Not pushed through Or/And/Implies one level."""
    if z3.is_and(f):
        return [y for x in f.children() for y in lits_of(x)]
    if z3.is_not(f):
        g = f.arg(0)
        if z3.is_or(g):
            return [y for x in g.children() for y in lits_of(z3.Not(x))]
        if z3.is_implies(g):
            return lits_of(g.arg(0)) + lits_of(z3.Not(g.arg(1)))
        if z3.is_not(g):
            return lits_of(g.arg(0))
        if z3.is_and(g):
            return [z3.Or(*[z3.Not(x) for x in g.children()])]
    return [f]


def norm_at(t):
    """x.at(i) written as a substring of length 1 (one spelling for one term)."""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_quantifier(x) or not z3.is_app(x) or not x.num_args():
            r = x
        else:
            ch = [go(y) for y in x.children()]
            if x.decl().kind() == z3.Z3_OP_SEQ_AT:
                r = z3.SubString(ch[0], ch[1], 1)
            elif any(a.get_id() != b.get_id() for a, b in zip(ch, x.children())):
                r = x.decl()(*ch)
            else:
                r = x
        memo[k] = r
        return r
    return go(t)


def find_ite(t):
    if z3.is_quantifier(t) or not z3.is_app(t):
        return None
    if z3.is_app_of(t, z3.Z3_OP_ITE) and not z3.is_bool(t):
        return t
    for x in t.children():
        r = find_ite(x)
        if r is not None:
            return r
    return None


def refutable(fs, budget=60):
    """Case analysis over conditions inside the literals and over disjunctions; every case refuted by its regular literals."""
    n = [budget]

    def go(lits, ors):
        n[0] -= 1
        if n[0] < 0:
            return False
        if contradictory(lits):
            return True
        # choose a condition in a literal
        for k, f in enumerate(lits):
            t = find_ite(f)
            if t is not None:
                c, a, b = t.children()
                rest = lits[:k] + lits[k + 1:]
                return (go(rest + lits_of(c) + lits_of(z3.substitute(f, (t, a))), ors) and
                        go(rest + lits_of(z3.Not(c)) + lits_of(z3.substitute(f, (t, b))), ors))
        if ors:
            o, rest = ors[0], ors[1:]
            for d in o:
                ls = lits_of(d)
                sub = [x.children() for x in ls if z3.is_or(x) and not alternatives(x)]
                if not go(lits + [x for x in ls if not z3.is_or(x) or alternatives(x)], rest + sub):
                    return False
            return True
        return False
    lits, ors = [], []
    for f in fs:
        for x in lits_of(norm_at(f)):
            if z3.is_or(x) and not alternatives(x):
                ors.append(x.children())
            elif not (z3.is_implies(x) or z3.is_quantifier(x)):
                lits.append(x)
    if len(ors) > 5:
        ors = ors[-5:]
    return go(lits, ors)
