"""C05: prior version inventories (validate_as_prior_version and what it uses), in the three readings of contracts/inventory_validator.py.

Both inventories are valid ones; what is used of that is stated as preconditions here."""
import z3

from pyvc.engine import LoopSpec
from pyvc.task import task
from pyvc.values import (Sym, SetObj, MapObj, DictObj, AccList, V, fresh, kind, has, get, mem, lit, setof, KD, KL, KS, BoolS, SetS, SeqS, Unsupported)
from contracts.inventory_validator import (M, C, WORD, X, FA, base, start, total, validator, norm, opaque, version_list, arr_of, each, error, some_errors)

MapS = z3.ArraySort(V, SetS)
lp = z3.Function("logical_paths_of", V, V, SetS)           # (inventory, version): the logical paths of its state
ct = z3.Function("content_of", V, V, MapS)                 # (inventory, version): logical path -> content paths recorded for its digest
digs = z3.Function("digests_of", V, V, V, SetS)            # (inventory, version, algorithm): the normalized digests of its state


def state_of(inv, v):
    return get(get(get(inv, lit("versions")), v), lit("state"))


def manifest_of(inv):
    return get(inv, lit("manifest"))


def wellformed(inv, A):
    """What is used of the validity of an inventory with the versions A."""
    v, x, p = X("v", "x", "p")
    s, m = state_of(inv, v), manifest_of(inv)
    return [z3.And(kind(inv) == KD, has(inv, lit("versions")), has(inv, lit("manifest")), kind(get(inv, lit("versions"))) == KD, kind(m) == KD),
            FA([v], z3.Implies(A[v], z3.And(kind(v) == KS, has(get(inv, lit("versions")), v), kind(get(get(inv, lit("versions")), v)) == KD,
                                            has(get(get(inv, lit("versions")), v), lit("state")), kind(s) == KD)), A[v]),
            FA([v, x], z3.Implies(z3.And(A[v], has(s, x)), z3.And(kind(x) == KS, has(m, x), kind(get(s, x)) == KL)), z3.MultiPattern(A[v], has(s, x))),
            FA([v, x, p], z3.Implies(z3.And(A[v], has(s, x), mem(get(s, x), p)), kind(p) == KS), z3.MultiPattern(A[v], has(s, x), mem(get(s, x), p))),
            FA([x], z3.Implies(has(m, x), z3.And(kind(x) == KS, kind(get(m, x)) == KL)), has(m, x)),
            FA([x, p], z3.Implies(z3.And(has(m, x), mem(get(m, x), p)), kind(p) == KS), mem(get(m, x), p))]


@task("C05", M + "_get_logical_path_map", clause="logical paths of the state with the content paths of their digest")
def path_map(c):
    base(c.eng, "C")
    st, e0 = start(c)
    inv, v = fresh("V", "inventory"), fresh("V", "version")
    A = z3.Store(z3.K(V, z3.BoolVal(False)), v, z3.BoolVal(True))
    for f in wellformed(inv, A):
        st.assume_(z3.simplify(f) if False else f)
    x, y, p = X("x", "y", "p")
    s, m = state_of(inv, v), manifest_of(inv)
    st.assume_(z3.And(kind(v) == KS, has(get(inv, lit("versions")), v), kind(get(get(inv, lit("versions")), v)) == KD, has(get(get(inv, lit("versions")), v), lit("state")), kind(s) == KD))
    st.assume_(FA([x], z3.Implies(has(s, x), z3.And(kind(x) == KS, has(m, x), kind(get(s, x)) == KL)), has(s, x)))
    st.assume_(FA([x, p], z3.Implies(z3.And(has(s, x), mem(get(s, x), p)), kind(p) == KS), mem(get(s, x), p)))
    st.assume_(FA([x, y, p], z3.Implies(z3.And(has(s, x), has(s, y), mem(get(s, x), p), mem(get(s, y), p)), x == y), z3.MultiPattern(has(s, x), has(s, y), mem(get(s, x), p), mem(get(s, y), p))))

    def inv_(l, o, i):
        d = l.the(MapObj)
        j, k = z3.Ints("j k")
        from pyvc.values import key, at, jlen
        K = lambda j: key(s, j)
        here = z3.Or(j < o, z3.And(j == o, k < i)) if i is not None else j < o
        return [("only paths so far, with the content of their digest", FA([p], z3.Implies(d.dom[p], z3.Exists([x], z3.And(has(s, x), mem(get(s, x), p), d.val[p] == setof(get(m, x))))), d.dom[p])),
                ("all paths so far", FA([j, k], z3.Implies(z3.And(0 <= j, here, j <= o, 0 <= k, k < jlen(get(s, K(j)))), d.dom[at(get(s, K(j)), k)]), at(get(s, K(j)), k)))]
    c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, lambda l: inv_(l, l.i, None), depth=0), LoopSpec(lambda t: True, lambda l: inv_(l, l.outer[-1], l.i), depth=1)]
    rets, raises = c.run(st, [Sym("V", inv), Sym("V", v)])
    total(c, rets, raises, e0, "map")
    for s1, r in rets:
        c.cover(s1, "map")
        d = s1.heap[r.oid]
        if isinstance(d, DictObj):
            d = c.eng.B.mapobj(s1, d)
        pp, xx = fresh("V", "p"), fresh("V", "x")
        c.prove(s1.assume(d.dom[pp]), z3.Exists([x], z3.And(has(s, x), mem(get(s, x), pp))), "only paths of the state")
        c.prove(s1.assume(z3.And(has(s, xx), mem(get(s, xx), pp))), z3.And(d.dom[pp], d.val[pp] == setof(get(m, xx))), "every path of the state, with the content paths of its digest")


@each
def s_path_map(eng, st, env, node):
    inv, v = eng.toV(env["inventory"]), eng.toV(env["version"])
    s = st.copy()
    p, q = X("p", "q")
    eng.prove(st, has(get(inv, lit("versions")), v), "the version is there", node)
    s.fact_(FA([p], z3.Implies(lp(inv, v)[p], kind(p) == KS), lp(inv, v)[p]))
    s.fact_(z3.ForAll([p, q], z3.Implies(z3.And(lp(inv, v)[p], ct(inv, v)[p][q]), kind(q) == KS), patterns=[ct(inv, v)[p][q]]))
    return [(s, eng.alloc(s, MapObj(lp(inv, v), ct(inv, v))))]


# ---- _compare_states_for_version ----
def two(c, st):
    """Two validators after successful validation: the root's and the prior one's."""
    A, n, q, al = version_list(c.eng, st, "versions")
    B, k, r, bl = version_list(c.eng, st, "prior_versions")
    inv, pinv = fresh("V", "inventory"), fresh("V", "prior_inventory")
    me, alg, cd = validator(c, st, False, all_versions=al, inventory=Sym("V", inv), head=Sym("V", fresh("V", "head")))
    prior, palg, pcd = validator(c, st, False, all_versions=bl, inventory=Sym("V", pinv), head=Sym("V", fresh("V", "prior_head")))
    for f in wellformed(inv, A) + wellformed(pinv, B):
        st.assume_(f)
    return me, prior, A, B, inv, pinv, alg, palg


def same_digests(inv, pinv, v, alg, palg):
    x, y = X("x", "y")
    s, t = state_of(inv, v), state_of(pinv, v)
    return [("every digest of this state is in the prior one", FA([x], z3.Implies(has(s, x), z3.Exists([y], z3.And(has(t, y), norm(palg, y) == norm(alg, x)))), has(s, x))),
            ("every digest of the prior state is in this one", FA([y], z3.Implies(has(t, y), z3.Exists([x], z3.And(has(s, x), norm(palg, y) == norm(alg, x)))), has(t, y)))]


def compare_states(mode):
    def run(c):
        base(c.eng, mode)
        st, e0 = start(c)
        me, prior, A, B, inv, pinv, alg, palg = two(c, st)
        v = fresh("V", "version")
        st.assume_(z3.And(A[v], B[v], alg == palg))
        g, y0 = X("g", "y0")
        st.fact_(FA([g, y0], z3.Implies(kind(y0) == KS, kind(norm(g, y0)) == KS), norm(g, y0)))      # normalized_digest returns a string
        if mode == "A":
            for _, g in same_digests(inv, pinv, v, alg, palg):
                st.assume_(g)
        x, j = z3.Const("x", V), z3.Int("j")

        def so_far(l):
            e = l.view_seq
            s, t = state_of(inv, v), state_of(pinv, v)
            y = z3.Const("y", V)
            return [("digests so far are in this state", FA([j], z3.Implies(z3.And(0 <= j, j < l.i), z3.Exists([y], z3.And(has(s, y), norm(alg, y) == e(j)))), e(j))),
                    ("digests so far are in the prior state", FA([j], z3.Implies(z3.And(0 <= j, j < l.i), z3.Exists([y], z3.And(has(t, y), norm(palg, y) == e(j)))), e(j)))]
        c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, so_far if mode == "B" else None)]
        rets, raises = c.run(st, [prior, Sym("V", v)], self_=me)
        total(c, rets, raises, e0, "states")
        for s, r in rets:
            c.cover(s, "states")
            if mode == "B":
                for nm, g in same_digests(inv, pinv, v, alg, palg):
                    c.prove(s, g, "without error: " + nm)
    return run


for _m in "ABC":
    task("C05", C + "_compare_states_for_version", clause=WORD[_m])(compare_states(_m))


# ---- validate_as_prior_version ----
csame = z3.Function("same_digests_in_version", V, V, V, BoolS)       # (inventory, prior inventory, version): definition in same_digests above


@each
def s_compare_states(eng, st, env, node):
    me, prior, v = st.heap[env["self"].oid], st.heap[env["prior"].oid], eng.toV(env["version"])
    eng.prove(st, eng.toV(me.fields["digest_algorithm"]) == eng.toV(prior.fields["digest_algorithm"]), "same digest algorithm", node)
    for w, r in ((me, "this"), (prior, "the prior one")):
        d = get(eng.toV(w.fields["inventory"]), lit("versions"))
        eng.prove(st, z3.And(kind(d) == KD, has(d, v), kind(get(d, v)) == KD, has(get(d, v), lit("state")), kind(get(get(d, v), lit("state"))) == KD), "the version has a state in %s" % r, node)
    return [(opaque(eng, st, csame(eng.toV(me.fields["inventory"]), eng.toV(prior.fields["inventory"]), v), "states of the version", node), None)]


def agree(A, B, inv, pinv, alg, palg):
    v, p, q, x = X("v", "p", "q", "x")
    return [("the prior versions are versions", FA([v], z3.Implies(B[v], A[v]), B[v])),
            ("there are further versions", z3.Exists([x], z3.And(A[x], z3.Not(B[x])))),
            ("the prior logical paths are logical paths", z3.ForAll([v, p], z3.Implies(z3.And(B[v], lp(pinv, v)[p]), lp(inv, v)[p]), patterns=[z3.MultiPattern(B[v], lp(pinv, v)[p])])),
            ("there are no further logical paths", z3.ForAll([v, p], z3.Implies(z3.And(B[v], lp(inv, v)[p]), lp(pinv, v)[p]), patterns=[z3.MultiPattern(B[v], lp(inv, v)[p])])),
            ("prior content is still recorded", z3.ForAll([v, p, q], z3.Implies(z3.And(B[v], lp(pinv, v)[p], ct(pinv, v)[p][q]), ct(inv, v)[p][q]),
                                                          patterns=[z3.MultiPattern(B[v], ct(pinv, v)[p][q])])),
            ("with one algorithm the digests are the same", z3.Implies(alg == palg, FA([v], z3.Implies(B[v], csame(inv, pinv, v)), B[v])))]


def prior_version(mode):
    def run(c):
        base(c.eng, mode)
        c.eng.summaries[M + "_get_logical_path_map"] = s_path_map
        c.eng.summaries[C + "_compare_states_for_version"] = s_compare_states
        c.eng.split_returns = mode == "C"
        st, e0 = start(c)
        me, prior, A, B, inv, pinv, alg, palg = two(c, st)
        c.eng.loops[c.t.func] = [LoopSpec(lambda t: True, None)]
        conds = agree(A, B, inv, pinv, alg, palg)
        if mode == "A":
            for _, g in conds:
                st.assume_(g)
        rets, raises = c.run(st, [prior], self_=me)
        total(c, rets, raises, e0, "prior version")
        for s1, r1 in rets:
            for s, r in c.eng.split(s1, r1):
                for s2, b in c.eng.truth(s, r):
                    c.prove(s2, z3.BoolVal(isinstance(r, bool) or isinstance(r, Sym) and r.sort == "bool"), "the verdict is a bool")
                    c.cover_any(s2, "prior version, verdict %s" % b)
                    if mode == "C":
                        c.prove(s2, (s2.ghost["~errs"] == e0) == z3.BoolVal(b), "the verdict is True exactly when no error was counted")
                    if mode == "A":
                        c.prove(s2, z3.BoolVal(b), "agreeing inventories are accepted")
                    if mode == "B" and b:
                        for nm, g in conds:
                            c.prove(s2, g, "accepted: " + nm)
    return run


for _m in "ABC":
    task("C05", C + "validate_as_prior_version", clause=WORD[_m])(prior_version(_m))
