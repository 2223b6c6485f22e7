"""C11: mapping of object ids to paths (ocfl/layout*.py)."""
import z3

from pyvc import rx, reg
from pyvc.engine import State, LoopSpec
from pyvc.task import task
from pyvc.values import Sym, Func, Bound, Exc, Unsupported, V, fresh, StrS, IntS, kind, KS, KD, KI, KB, iv, bv, sv, has, get, lit
from pyvc.files import slen

from contracts.digests import STR_ALGS, HEXLEN

s_ = z3.StringVal
HEX = z3.Union(z3.Range("0", "9"), z3.Range("a", "f"))
SLASH = s_("/")


def hexn(n):
    return z3.Concat(*([HEX] * n))


def cat(*xs):
    ps = [s_(x) if isinstance(x, str) else x for x in xs]
    return z3.Concat(*ps) if len(ps) > 1 else ps[0]


def chars_except(bad):
    """Plus-closure of the characters not in bad."""
    return z3.Plus(z3.Intersect(z3.AllChar(z3.ReSort(StrS)), *[z3.Complement(z3.Re(b)) for b in bad]))


PLAIN = chars_except("/.")
QUOTED = z3.Star(z3.Union(z3.Range("A", "Z"), z3.Range("a", "z"), z3.Range("0", "9"), *[z3.Re(x) for x in "_.-~%+"]))

S_quote = z3.Function("S_quote", StrS, StrS)        # urllib.parse.quote_plus
S_unquote = z3.Function("S_unquote", StrS, StrS)    # urllib.parse.unquote_plus
S_pt = z3.Function("S_id_encode", StrS, StrS)       # pairtree.id_encode
S_hex = z3.Function("S_digest_hex", StrS, StrS, StrS)   # string_digest(text, algorithm)
S_pct = z3.Function("S_pct", StrS, StrS)            # _percent_encode of one character


def only(c, raises, exc="LayoutException"):
    for s, e in raises:
        if e.name != exc:
            c.eng.unreachable(s, "only %s is raised (not %s)" % (exc, e.name))


def good_name(r):
    """A path of one segment that is not '.' or '..'."""
    return z3.And(r != s_(""), r != s_("."), r != s_(".."), z3.Not(z3.Contains(r, SLASH)))


def layout(c, st, mod, cls, args=()):
    r = c.new(st, mod, cls, list(args))
    assert len(r) == 1
    return r[0]


FLAT = [("layout_0002_flat_direct", "Layout_0002_Flat_Direct")]


@task("C11", "layout_0002_flat_direct.Layout_0002_Flat_Direct.identifier_to_path", native=True)
def direct(c):
    i = fresh("str", "identifier")
    st, me = layout(c, State(), "layout_0002_flat_direct", "Layout_0002_Flat_Direct")
    rets, raises = c.run(st, [Sym("str", i)], self_=me)
    for s, v in rets:
        c.cover(s, "mapped")
        c.prove(s, c.eng.tostr(v) == i, "the path is the id itself", model_of={"identifier": i})
        c.prove(s, good_name(c.eng.tostr(v)), "one safe segment", model_of={"identifier": i})
    for s, e in raises:
        c.prove(s, z3.Not(good_name(i)), "refuses only ids that are not a safe segment", model_of={"identifier": i})
    only(c, raises)


def x_quote(eng, st, a, kw, node):
    x = eng.tostr(a[0])
    if len(a) > 1 or kw:
        raise Unsupported("quote options", node)
    r = S_quote(x)
    s = st.assume(z3.InRe(r, QUOTED))
    s.assume_(S_unquote(r) == x)
    for d in ("", ".", ".."):
        s.assume_((r == s_(d)) == (x == s_(d)))
    return [(s, Sym("str", r))]


def flatq_setup(eng):
    eng.ext["urllib.parse.quote_plus"] = x_quote


@task("C11", "layout_nnnn_flat_quoted.Layout_NNNN_Flat_Quoted.identifier_to_path", native=True, setup=flatq_setup)
def flatq(c):
    i, i2 = fresh("str", "identifier"), fresh("str", "identifier2")
    st, me = layout(c, State(), "layout_nnnn_flat_quoted", "Layout_NNNN_Flat_Quoted")
    rets, raises = c.run(st, [Sym("str", i)], self_=me)
    for s, v in rets:
        c.cover(s, "mapped")
        r = c.eng.tostr(v)
        c.prove(s, r == S_quote(i), "the path is the quoted id", model_of={"identifier": i})
        c.prove(s, good_name(r), "one safe segment", model_of={"identifier": i})
        # two ids with the same path are the same id: the path can be unquoted
        c.prove(s, S_unquote(r) == i, "the id can be recovered from the path")
    for s, e in raises:
        c.prove(s, z3.Or(*[i == s_(d) for d in ("", ".", "..")]), "refuses only blank, . and ..", model_of={"identifier": i})
    only(c, raises)


@task("C11", "layout_nnnn_uuid_quadtree.Layout_NNNN_UUID_Quadtree.identifier_to_path", native=True)
def quadtree(c):
    p, rest, g = fresh("str", "prefix"), fresh("str", "rest"), [fresh("str", "g%d" % k) for k in range(8)]
    L = z3.Concat(*[x for k in range(8) for x in ([z3.Re("-")] if k in (2, 3, 4, 5) else []) + [hexn(4)]])
    st0 = State()
    st0.assume_(p != s_(""))
    # ids of the published form
    st, me = layout(c, st0, "layout_nnnn_uuid_quadtree", "Layout_NNNN_UUID_Quadtree", [Sym("str", p)])
    for x in g:
        st.assume_(z3.InRe(x, hexn(4)))
    i = cat(p, g[0], g[1], "-", g[2], "-", g[3], "-", g[4], "-", *g[5:6])
    i = cat(p, g[0], g[1], "-", g[2], "-", g[3], "-", g[4], "-", g[5], g[6], g[7])
    rets, raises = c.run(st, [Sym("str", i)], self_=me)
    exp = cat(*[x for k in range(8) for x in (["/"] if k else []) + [g[k]]])
    c.prove(State(), z3.BoolVal(bool(rets)), "ids of the form are mapped")
    for s, v in rets:
        c.cover(s, "mapped")
        c.prove(s, c.eng.tostr(v) == exp, "the path is the eight groups in order", model_of={"identifier": i, "prefix": p})
    for s, e in raises:
        c.eng.unreachable(s, "ids of the form are not refused")
    # lemma: equal paths only for equal ids
    h = [fresh("str", "h%d" % k) for k in range(8)]
    s2 = State()
    for x in g + h:
        s2.assume_(z3.InRe(x, hexn(4)))
        s2.assume_(z3.Length(x) == 4)
    s2.assume_(exp == cat(*[x for k in range(8) for x in (["/"] if k else []) + [h[k]]]))
    for k in range(8):
        c.prove(s2, g[k] == h[k], "lemma: equal paths have equal groups (%d)" % k)
        s2.assume_(g[k] == h[k])
    # everything else is refused
    st, me = layout(c, st0, "layout_nnnn_uuid_quadtree", "Layout_NNNN_UUID_Quadtree", [Sym("str", p)])
    st.assume_(z3.Not(z3.InRe(rest, L)))
    rets, raises = c.run(st, [Sym("str", z3.Concat(p, rest))], self_=me)
    for s, v in rets:
        c.eng.unreachable(s, "prefix and something else: refused", model_of={"identifier": z3.Concat(p, rest), "prefix": p})
    only(c, raises)
    o = fresh("str", "identifier")
    st, me = layout(c, st0, "layout_nnnn_uuid_quadtree", "Layout_NNNN_UUID_Quadtree", [Sym("str", p)])
    st.assume_(z3.Not(z3.PrefixOf(p, o)))
    rets, raises = c.run(st, [Sym("str", o)], self_=me)
    for s, v in rets:
        c.eng.unreachable(s, "no prefix: refused", model_of={"identifier": o, "prefix": p})
    only(c, raises)


# ---- tuples ----
def tuples(e, ts):
    """T(k): the first k tuples of ts characters of e, joined with '/': its defining equations at k, as needed."""
    T = z3.Function("tuples_%d" % ts, StrS, IntS, StrS)

    def eqs(k):
        x = z3.SubString(e, k * ts, ts)
        return [T(e, z3.IntVal(0)) == s_(""), T(e, z3.IntVal(1)) == z3.SubString(e, 0, ts),
                z3.Implies(k >= 1, T(e, k + 1) == z3.Concat(T(e, k), SLASH, x))]
    return T, eqs


def x_id_encode(eng, st, a, kw, node):
    x = eng.tostr(a[0])
    r = S_pt(x)
    return [(st.assume(z3.And(z3.InRe(r, z3.Star(z3.Intersect(z3.AllChar(z3.ReSort(StrS)), z3.Complement(z3.Re("/")), z3.Complement(z3.Re("."))))),
                              (r == s_("")) == (x == s_("")))), Sym("str", r))]


def tuple_tree(ts):
    def run(c):
        i, e = fresh("str", "identifier"), fresh("str", "encoded")
        T, eqs = tuples(e, ts)
        eng = c.eng
        eng.joinlists = True

        def enc(eng, st, a, kw, node):
            # the encoded id gets a name of its own
            s = st.assume(e == S_pt(eng.tostr(a[0])))
            s.assume_(z3.InRe(e, PLAIN) if not eng.feasible(s, eng.tostr(a[0]) == s_("")) else z3.InRe(e, z3.Option(PLAIN)))
            for d in "/.":
                s.assume_(z3.Not(z3.Contains(e, s_(d))))
            return [(s, Sym("str", e))]
        eng.ext["pairtree.id_encode"] = enc

        def inv(l):
            rem, segs, k = l.only("str"), l.only("joinlist"), l.i
            n = z3.Length(e)
            for q in eqs(k) + eqs(k - 1):
                l.st.fact_(q)
            return [("rest of the encoded id", rem == z3.SubString(e, k * ts, n - k * ts)),
                    ("at least one character is left", z3.And(k * ts < n, z3.Length(rem) == n - k * ts)),
                    ("plain characters", z3.InRe(rem, PLAIN)),
                    ("no slash or dot in the rest", z3.And(z3.Not(z3.Contains(rem, SLASH)), z3.Not(z3.Contains(rem, s_("."))))),
                    ("one tuple per round", segs.n == k),
                    ("the tuples so far", segs.text == T(e, k)),
                    ("plain segments", segs.clean),
                    ("no dot", z3.Not(z3.Contains(segs.text, s_("."))))]
        eng.loops[c.t.func] = [LoopSpec(lambda t: True, inv)]
        st, me = layout(c, State(), "layout_nnnn_tuple_tree", "Layout_NNNN_Tuple_Tree", [ts])
        rets, raises = c.run(st, [Sym("str", i)], self_=me)
        k = fresh("int", "k")
        m = {"identifier": i}
        for s, v in rets:
            c.cover(s, "mapped")
            r = eng.tostr(v)
            n = z3.Length(e)
            s = s.assume(z3.And(k >= 0, k * ts < n, n <= (k + 1) * ts))        # k: the number of full tuples before the last
            for q in eqs(k) + eqs(k - 1):
                s.assume_(q)
            c.prove(s, z3.And(e == S_pt(i), i != s_("")), "of the encoded id")
            c.prove(s, r == z3.Concat(T(e, k + 1), SLASH, e), "tuples of %d characters, then the encoded id" % ts, model_of=m)
            # with the obligation that the joined list consists of plain segments (not empty, no slash)
            c.prove(s, z3.Not(z3.Contains(r, s_("."))), "no . or .. segment", model_of=m)
        for s, x in raises:
            c.prove(s, i == s_(""), "refuses only the blank id", model_of=m)
        only(c, raises)
    return run


for _n in range(2, 7):
    task("C11", "layout_nnnn_tuple_tree.Layout_NNNN_Tuple_Tree.identifier_to_path", clause="tuple size %d" % _n, native=True)(tuple_tree(_n))


# ---- 0003 ----
def s_percent(eng, st, env, node):
    """Contract of _percent_encode for one character; checked for every character by the witness search (finite domain)."""
    r = S_pct(eng.tostr(env["c"]))
    return [(st.assume(z3.InRe(r, z3.Plus(z3.Concat(z3.Re("%"), HEX, HEX)))), Sym("str", r))]


SAFE = z3.Union(z3.Range("A", "Z"), z3.Range("a", "z"), z3.Range("0", "9"), z3.Re("-"), z3.Re("_"))


ENC1 = z3.Union(SAFE, z3.Re("%"))
ENC = z3.Plus(ENC1)


def encap(t):
    """E(n): the encoding of the first n characters of t, by its defining equations at k."""
    E = z3.Function("encoded_prefix", StrS, IntS, StrS)

    def eqs(k):
        ch = z3.SubString(t, k, 1)
        return [E(t, z3.IntVal(0)) == s_(""),
                z3.Implies(z3.And(k >= 0, k < z3.Length(t)), E(t, k + 1) == z3.Concat(E(t, k), z3.If(z3.InRe(ch, SAFE), ch, S_pct(ch))))]
    return E, eqs


def encap_setup(eng):
    eng.summaries["layout_0003_hash_and_id_n_tuple._percent_encode"] = s_percent


@task("C11", "layout_0003_hash_and_id_n_tuple._get_encapsulation_directory", native=True, setup=encap_setup)
def encapsulation(c):
    t, d = fresh("str", "object_id"), fresh("str", "digest")
    E, eqs = encap(t)

    def inv(l):
        for q in eqs(l.i) + eqs(l.i - 1):
            l.st.fact_(q)
        return [("the characters so far are encoded", l.only("str") == E(t, l.i)),
                ("safe characters only", z3.InRe(l.only("str"), z3.Star(ENC1))), ("not empty", z3.Or(l.i == 0, l.only("str") != s_("")))]
    c.eng.loops[c.t.func] = [LoopSpec(lambda x: True, inv)]
    st = State()
    st.assume_(z3.And(z3.InRe(d, z3.Plus(HEX)), t != s_("")))
    rets, raises = c.run(st, [Sym("str", t), Sym("str", d)])
    full = E(t, z3.Length(t))
    for s, v in rets:
        c.cover(s, "encoded")
        r = c.eng.tostr(v)
        c.prove(s, z3.InRe(r, ENC), "one safe segment", model_of={"object_id": t})
        c.prove(s.assume(z3.Length(full) <= 100), r == full, "the encoded id when it has at most 100 characters", model_of={"object_id": t})
        c.prove(s.assume(z3.Length(full) > 100), r == z3.Concat(z3.SubString(full, 0, 100), s_("-"), d),
                "100 characters of it, '-' and the digest when it is longer", model_of={"object_id": t})
    for s, e in raises:
        c.eng.unreachable(s, "no exception")


S_encap = z3.Function("S_encap", StrS, StrS, StrS)


def s_encapsulation(eng, st, env, node):
    t, d = eng.tostr(env["object_id"]), eng.tostr(env["digest"])
    r = S_encap(t, d)
    s = st.copy()
    s.assume_(z3.Implies(t != s_(""), z3.InRe(r, ENC)))
    return [(s, Sym("str", r))]


def s_string_digest(eng, st, env, node):
    """Contract of string_digest (proved for C14)."""
    t, a = eng.tostr(env["txt"]), env.get("digest_type", "sha512")
    if isinstance(a, Sym) and a.sort == "V":
        ok = z3.And(kind(a.t) == KS, z3.Or(*[sv(a.t) == s_(x) for x in STR_ALGS]))
        at = sv(a.t)
    else:
        at = eng.tostr(a)
        ok = z3.Or(*[at == s_(x) for x in STR_ALGS])
    y, n = eng.fork(st, ok)
    if n is not None:
        eng.raise_(n, Exc(ValueError))
    if y is None:
        return []
    r = S_hex(t, at)
    y = y.copy()
    for x in STR_ALGS:
        y.assume_(z3.Implies(at == s_(x), z3.Length(r) == HEXLEN[x]))
    y.assume_(z3.InRe(r, z3.Plus(HEX)))
    return [(y, Sym("str", r))]


def path_setup(eng):
    eng.summaries["layout_0003_hash_and_id_n_tuple._get_encapsulation_directory"] = s_encapsulation
    eng.summaries["digest.string_digest"] = s_string_digest
    eng.split_paths = False


def tuples_sym(e, ts):
    """T(k) for a symbolic tuple size."""
    T = z3.Function("tuples", StrS, IntS, IntS, StrS)

    def eqs(k):
        x = z3.SubString(e, k * ts, ts)
        return [T(e, ts, z3.IntVal(0)) == s_(""), T(e, ts, z3.IntVal(1)) == z3.SubString(e, 0, ts),
                z3.Implies(k >= 1, T(e, ts, k + 1) == z3.Concat(T(e, ts, k), SLASH, x))]
    return lambda k: T(e, ts, k), eqs


def hash_path(zero):
    def run(c):
        eng = c.eng
        i, d, alg = fresh("str", "identifier"), fresh("str", "digest"), fresh("str", "digestAlgorithm")
        n, ts = (z3.IntVal(0), z3.IntVal(0)) if zero else (fresh("int", "numberOfTuples"), fresh("int", "tupleSize"))
        T, eqs = tuples_sym(d, ts)

        def digest(eng, st, env, node):
            # every algorithm is the same here: hex text of a known length, named after its arguments
            t, a = eng.tostr(env["txt"]), eng.tostr(env.get("digest_type", "sha512"))
            return [(st.assume(d == S_hex(t, a)), Sym("str", d))]
        eng.summaries["digest.string_digest"] = digest
        # products are left to one lemma
        x, y, z = z3.Ints("x y z")
        c.prove(State(), z3.ForAll([x, y, z], z3.Implies(z3.And(x < y, z >= 0), x * z + z <= y * z)), "lemma: room for one more tuple")

        def inv(l):
            k = l.i
            for q in eqs(k) + eqs(k - 1):
                l.st.fact_(q)
            l.st.fact_(z3.Implies(k < n, k * ts + ts <= n * ts))
            l.st.fact_(z3.Implies(k >= 0, k * ts >= 0))
            p = l.only("str")
            return [("the tuples so far", p == T(k)), ("no slash at the end", z3.Not(z3.SuffixOf(SLASH, p))), ("none at the start", z3.Not(z3.PrefixOf(SLASH, p))),
                    ("starts empty", (k == 0) == (p == s_("")))]
        eng.loops["layout_0003_hash_and_id_n_tuple._id_to_path"] = [LoopSpec(lambda x: True, inv)]
        st, me = layout(c, State(), "layout_0003_hash_and_id_n_tuple", "Layout_0003_Hash_And_Id_N_Tuple")
        m = {"identifier": i, "digestAlgorithm": alg}
        st = st.copy()
        o = st.heap[me.oid]
        one = (lambda t: Sym("int", t)) if not zero else (lambda t: 0)
        st.heap[me.oid] = type(o)(o.cls, dict(o.fields, tuple_size=one(ts), number_of_tuples=one(n), digest_algorithm=Sym("str", alg)))
        if not zero:
            m.update(tupleSize=ts, numberOfTuples=n)
            st.assume_(z3.And(ts >= 1, ts <= 32, n >= 1, n <= 32, n * ts <= z3.Length(d)))
        st.assume_(z3.InRe(d, z3.Plus(HEX)))
        st.assume_(z3.Not(z3.Contains(d, SLASH)))
        rets, raises = c.run(st, [Sym("str", i)], self_=me)
        en = S_encap(i, d)
        for s, v in rets:
            c.cover(s, "mapped")
            r = eng.tostr(v)
            for q in eqs(n) + eqs(n - 1):
                s.fact_(q)
            c.prove(s, i != s_(""), "the blank id is refused", model_of=m)
            c.prove(s, d == S_hex(i, alg), "the digest is that of the id under the algorithm of the layout", model_of=m)
            c.prove(s, r == (en if zero else z3.Concat(T(n), SLASH, en)), "the tuples of the digest of the id, then the encapsulating directory", model_of=m)
        for s, e in raises:
            c.prove(s, i == s_(""), "refuses only the blank id", model_of=m)
        only(c, raises)
    return run


for _z in (True, False):
    task("C11", "layout_0003_hash_and_id_n_tuple.Layout_0003_Hash_And_Id_N_Tuple.identifier_to_path", clause="no tuples" if _z else "any number and size of tuples",
         native=True, setup=path_setup)(hash_path(_z))


# ---- parameters ----
def bad_params(cls, cfg):
    """The documented ranges, as a predicate on the JSON value of config.json: what must be refused, what is then set."""
    def p(k):
        return get(cfg, lit(k)), has(cfg, lit(k))

    def intin(k, lo, hi):
        v, h = p(k)
        return z3.And(h, kind(v) == KI, iv(v) >= lo, iv(v) <= hi)
    if cls == "Layout_NNNN_Tuple_Tree":
        return intin("tupleSize", 2, 6), {"tuple_size": ("tupleSize", "int")}
    if cls == "Layout_NNNN_UUID_Quadtree":
        v, h = p("prefix")
        return z3.And(h, kind(v) == KS, v != lit("")), {"prefix": ("prefix", "str")}
    if cls == "Layout_0003_Hash_And_Id_N_Tuple":
        v, h = p("digestAlgorithm")
        t, n = iv(get(cfg, lit("tupleSize"))), iv(get(cfg, lit("numberOfTuples")))
        room = z3.Or(*[z3.And(v == lit(a), t * n <= HEXLEN[a]) for a in STR_ALGS])
        return (z3.And(h, z3.Or(*[v == lit(a) for a in STR_ALGS]), intin("tupleSize", 0, 32), intin("numberOfTuples", 0, 32), (t == 0) == (n == 0), room),
                {"digest_algorithm": ("digestAlgorithm", "str"), "tuple_size": ("tupleSize", "int"), "number_of_tuples": ("numberOfTuples", "int")})
    return z3.BoolVal(True), {}


def s_string_digest_v(eng, st, env, node):
    """Contract of string_digest (proved for C14) for an algorithm given as a JSON value."""
    a = eng.toV(env.get("digest_type", "sha512"))
    y, n = eng.fork(st, z3.Or(*[a == lit(x) for x in STR_ALGS]))
    if n is not None:
        eng.raise_(n, Exc(ValueError))
    if y is None:
        return []
    r = fresh("V", "hex")
    ln = slen
    y = y.copy()
    y.assume_(kind(r) == KS)
    for x in STR_ALGS:
        y.assume_(z3.Implies(a == lit(x), ln(r) == HEXLEN[x]))
    return [(y, Sym("V", r))]


def params_setup(eng):
    eng.summaries["digest.string_digest"] = s_string_digest_v


CLASSES = [("layout_0002_flat_direct", "Layout_0002_Flat_Direct"), ("layout_0003_hash_and_id_n_tuple", "Layout_0003_Hash_And_Id_N_Tuple"),
           ("layout_nnnn_flat_quoted", "Layout_NNNN_Flat_Quoted"), ("layout_nnnn_tuple_tree", "Layout_NNNN_Tuple_Tree"), ("layout_nnnn_uuid_quadtree", "Layout_NNNN_UUID_Quadtree")]


def params(mod, cls):
    def run(c):
        eng = c.eng
        cfg = fresh("V", "config")
        for named in (True, False):
            st, me = layout(c, State(), mod, cls)
            st.assume_(kind(cfg) == KD)
            name = st.heap[me.oid].fields["NAME"]
            ok, sets = bad_params(cls, cfg)
            ok = z3.And(ok, z3.Implies(has(cfg, lit("extensionName")), get(cfg, lit("extensionName")) == lit(name)))
            if named:
                ok = z3.And(ok, has(cfg, lit("extensionName")))
            rets, raises = c.run(st, [Sym("V", cfg)] + ([] if named else [False]), self_=me, qual="layout.Layout.check_and_set_layout_params")
            tag = "" if named else " (extensionName optional)"
            for s, v in rets:
                c.cover(s, "accepted" + tag)
                c.prove(s, ok, "only documented parameters are accepted" + tag)
                for f, (k, w) in sets.items():
                    x = s.heap[me.oid].fields[f]
                    c.prove(s, eng.toV(x) == get(cfg, lit(k)), "%s is set" % k + tag)
            for s, e in raises:
                c.prove(s, z3.Not(ok), "documented parameters are not refused" + tag)
            only(c, raises)
        # the configuration written for other programs is that of the instance
        if sets:
            st, me = layout(c, State(), mod, cls)
            st = st.copy()
            o = st.heap[me.oid]
            vals = {f: Sym("V", fresh("V", f)) for f in sets}
            st.heap[me.oid] = type(o)(o.cls, dict(o.fields, **vals))
            rets, raises = c.run(st, [], self_=me, qual="%s.%s.config" % (mod, cls))
            c.prove(State(), z3.BoolVal(len(rets) == 1 and not raises), "config is defined")
            for s, v in rets:
                items = s.heap[v.oid].items
                good = set(items) == {"extensionName"} | {k for k, _ in sets.values()} and items["extensionName"] == name and all(items[k] == vals[f] for f, (k, _) in sets.items())
                c.prove(s, z3.BoolVal(bool(good)), "config holds the name and every parameter")
    return run


for _m, _c in CLASSES:
    task(["C11", "C13"], "layout.Layout.check_and_set_layout_params", clause=_c, setup=params_setup)(params(_m, _c))
