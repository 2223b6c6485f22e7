"""Loops: unrolled over concrete sequences, cut by invariants over symbolic ones."""
import ast

import z3

from . import values as V_
from .values import (Sym, Opaque, UNDEF, Undef, Union, Ref, Inst, ListObj, DictObj, SetObj, MapObj, AccList,
                     Unsupported, fresh, V)
from .engine import LoopCtx, LostAnnotation, has_quant, same_val

UNROLL = 40


def find_spec(eng, node, itext, st=None):
    quals = [eng.funcstack[-1]] if eng.funcstack else []
    # an extracted helper keeps the annotations of the function it was extracted from
    quals += [q for q in reversed(eng.funcstack[:-1])]
    for q in quals:
        for sp in eng.loops.get(q, []):
            if matches(sp.match, itext) and (sp.depth is None or st is None or sp.depth == len(st.ghost.get("loopidx", ()))):
                return sp
    return None


def matches(m, text):
    if callable(m):
        return m(text)
    ms = m if isinstance(m, (tuple, list)) else (m,)
    return text in ms


def assigned_names(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def fresh_like(eng, vals, name):
    """A fresh value covering all the values seen for a modified variable."""
    vals = [v for v in vals if v is not None or True]
    flat = []
    for v in vals:
        flat += [x for _, x in v.alts] if isinstance(v, Union) else [v]
    if any(isinstance(v, Undef) for v in flat):
        return UNDEF
    if all(isinstance(v, Opaque) for v in flat):
        return flat[0]
    if any(isinstance(v, Opaque) for v in flat):
        return Opaque("loop")
    refs = [v for v in flat if isinstance(v, Ref)]
    if refs and all(v is None or v == refs[0] for v in flat) and any(v is None for v in flat):
        b = fresh("bool", name + "_isnone")
        return Union([(b, None), (z3.Not(b), refs[0])])
    sorts = set()
    for v in flat:
        if isinstance(v, Sym):
            sorts.add(v.sort)
        elif v is None:
            sorts.add("none")
        elif isinstance(v, bool):
            sorts.add("bool")
        elif isinstance(v, int):
            sorts.add("int")
        elif isinstance(v, str):
            sorts.add("str" if eng.native else "V")
        elif isinstance(v, tuple) and all(isinstance(w, tuple) and len(w) == len(v) for w in flat):
            return tuple(fresh_like(eng, [w[i] for w in flat], name) for i in range(len(v)))
        elif isinstance(v, Ref) and all(w == v for w in flat):
            return v
        elif isinstance(v, Ref):
            return UNDEF           # different objects: a use that is not preceded by an assignment is not supported
        else:
            raise Unsupported("cannot generalise loop variable %s (%r)" % (name, v))
    if len(sorts) == 1 and sorts != {"none"}:
        s = sorts.pop()
        return Sym(s, fresh(s, name))
    if sorts == {"none"}:
        return None
    if sorts <= {"none", "V"}:
        return Sym("V", fresh("V", name))
    if sorts <= {"none", "str"} or sorts <= {"none", "int"} or sorts <= {"none", "bool"}:
        s = (sorts - {"none"}).pop()
        b = fresh("bool", name + "_isnone")
        return Union([(b, None), (z3.Not(b), Sym(s, fresh(s, name)))])
    if sorts <= {"none", "V", "bool", "int"} or sorts <= {"V", "str", "none"}:
        return Sym("V", fresh("V", name))
    raise Unsupported("cannot generalise loop variable %s" % name)


def fresh_obj(eng, o, depth, others=()):
    I = z3.ArraySort(V, z3.IntSort())
    births = tuple(fresh(I, "birth") for _ in range(depth))
    if isinstance(o, SetObj):
        return SetObj(fresh(V_.SetS, "set"), births)
    if isinstance(o, MapObj):
        return MapObj(fresh(V_.SetS, "dom"), fresh(o.val.sort(), "val"), births)
    if isinstance(o, AccList):
        n = fresh("int", "len")
        return AccList(fresh(V_.SetS, "list"), n, births, fresh(V_.SeqS, "seq") if o.seq is not None else None)
    if isinstance(o, ListObj):
        return AccList(fresh(V_.SetS, "list"), fresh("int", "len"), births, fresh(V_.SeqS, "seq"))
    if isinstance(o, DictObj):
        vs = V
        for x in others:
            if isinstance(x, MapObj):
                vs = x.val.sort().range()
        return MapObj(fresh(V_.SetS, "dom"), fresh(z3.ArraySort(V, vs), "val"), births)
    if hasattr(o, "havoc"):
        return o.havoc(eng)
    return None


def acc(eng, st, oid):
    """Convert a concrete list/dict to its abstract form before it is generalised."""
    o = st.heap[oid]
    if isinstance(o, ListObj) and eng.native and getattr(eng, "joinlists", False) and all(eng.B.isstr(x) for x in o.items):
        st.heap[oid] = V_.JoinList.of(o.items, eng.tostr)
    elif isinstance(o, ListObj):
        st.heap[oid] = eng.B.acclist(o)
    elif isinstance(o, DictObj):
        st.heap[oid] = eng.B.mapobj(st, o, eng.map_sorts.get(oid))


def havoc(eng, st, mod_vars, mod_objs, depth, spec, endvals):
    """State with everything the loop may modify replaced by fresh values."""
    s = st.copy()
    for n in mod_vars:
        if spec and n in spec.havoc:
            v = spec.havoc[n](eng, s) if spec.havoc[n].__code__.co_argcount == 2 else spec.havoc[n]()
        else:
            v = fresh_like(eng, [st.env.get(n, UNDEF)] + endvals.get(n, []), n)
        s.env[n] = v
    for oid, fields in mod_objs.items():
        o = s.heap[oid]
        if isinstance(o, Inst):
            f = dict(o.fields)
            for fn in fields:
                f[fn] = fresh_like(eng, [f.get(fn, UNDEF)] + endvals.get((oid, fn), []), fn)
            s.heap[oid] = Inst(o.cls, f)
        else:
            n = fresh_obj(eng, o, depth, endvals.get(oid, []))
            if n is None:
                raise Unsupported("cannot generalise a modified object in a loop")
            s.heap[oid] = n
            ln = getattr(n, "len", None)
            if ln is not None:
                s.fact_(ln >= 0)
                x = z3.Const("x", V)
                s.fact_(z3.ForAll([x], z3.Implies(n.arr[x], ln > 0), patterns=[n.arr[x]]))
                w = fresh("V", "w")
                s.fact_(z3.Implies(ln > 0, n.arr[w]))
    for g in st.ghost:
        if g.startswith("~"):         # ghost values that loops may change
            x = st.ghost[g]
            if ("ghost", g) in endvals:
                s.ghost[g] = fresh(x.sort(), g)
                if g == "~errs":
                    s.assume_(s.ghost[g] >= x)
    return s


def diff_states(base, ends, names):
    mv, mo, endvals, mg = set(), {}, {}, set()
    for e in ends:
        for n in set(names) & (set(base.env) | set(e.env)):
            a, b = base.env.get(n, UNDEF), e.env.get(n, UNDEF)
            if not same_val(a, b):
                mv.add(n)
                endvals.setdefault(n, []).append(b)
        for oid, o in base.heap.items():
            p = e.heap.get(oid)
            if p is None or p is o:
                continue
            if isinstance(o, Inst) and isinstance(p, Inst):
                ch = [f for f in set(o.fields) | set(p.fields) if not same_val(o.fields.get(f, UNDEF), p.fields.get(f, UNDEF))]
                if ch:
                    mo.setdefault(oid, set()).update(ch)
                    for f in ch:
                        endvals.setdefault((oid, f), []).append(p.fields.get(f, UNDEF))
            else:
                if obj_same(o, p):
                    continue
                mo.setdefault(oid, set())
                endvals.setdefault(oid, []).append(p)
        for g, x in base.ghost.items():
            if g.startswith("~") and not (e.ghost[g] is x or e.ghost[g].eq(x)):
                mg.add(g)
    return mv, mo, endvals, mg


def obj_same(o, p):
    if type(o) is not type(p):
        return False
    if isinstance(o, ListObj):
        return len(o.items) == len(p.items) and all(same_val(a, b) for a, b in zip(o.items, p.items))
    if isinstance(o, DictObj):
        return list(o.items) == list(p.items) and all(same_val(o.items[k], p.items[k]) for k in o.items)
    if hasattr(o, "same"):
        return o.same(p)
    for f in ("arr", "dom", "val", "len"):
        if hasattr(o, f) and not getattr(o, f).eq(getattr(p, f)):
            return False
    return True


def run_for(eng, node, st, it):
    if it.__class__.__name__ == "IterCall":
        return run_itercall(eng, node, st, it)
    items = eng.B.concrete_items(st, it)
    if items is not None:
        if len(items) > 400:
            raise Unsupported("unrolling %d iterations" % len(items), node)
        return unroll(eng, node, st, items)
    view = eng.B.view(st, it, node)
    if view is None:
        raise Unsupported("iteration over %r" % (it,), node)
    st = view.st
    itext = ast.unparse(node.iter)
    return cut(eng, node, st, view, itext)


def unroll(eng, node, st, items):
    cur, out = [st], []
    for x in items:
        nxt = []
        for s in cur:
            for s1 in eng.assign(s, node.target, x):
                for k, s2, v in eng.block(node.body, s1):
                    if k in ("norm", "cont"):
                        nxt.append(s2)
                    elif k == "break":
                        out.append(("norm", s2, None))
                    else:
                        out.append((k, s2, v))
        cur = eng.merge_states(nxt)
        if not cur:
            break
    for s in cur:
        if node.orelse:
            out += eng.block(node.orelse, s)
        else:
            out.append(("norm", s, None))
    return out


def stable(terms, born):
    """Do the terms avoid constants created after mark `born` (names with a higher counter)?"""
    for n in V_.symbols(terms):
        if "!" in n:
            try:
                if int(n.rsplit("!", 1)[1]) >= born:
                    return False
            except ValueError:
                pass
    return True


def mark():
    return int(str(fresh("int", "mark")).rsplit("!", 1)[1])


def cut(eng, node, st, view, itext):
    spec = find_spec(eng, node, itext, st)
    label = "%s loop over %s" % (eng.funcstack[-1] if eng.funcstack else "", itext)
    if spec is None:
        eng.lost.append(label)
    names = assigned_names(node.body) | assigned_names([ast.Expr(node.target)]) | ({node.target.id} if isinstance(node.target, ast.Name) else set())
    outer = st.ghost.get("loopidx", ())
    depth = len(outer) + 1
    ck = (id(node), eng.task)
    mv, mo, endvals, mg = eng.mod_cache.get(ck, (set(), {}, {}, set()))
    mv = set(mv)
    mo = {o: set(f) for o, f in mo.items() if o in st.heap}
    # ---- discovery of what the body modifies ----
    eng.recording += 1
    saved_sink = eng.sink
    lost_n = len(eng.lost)
    for rnd in range(8):
        eng.sink = []
        b0 = st.copy()
        for oid in mo:
            acc(eng, b0, oid)
        for g in mg:
            endvals[("ghost", g)] = []
        hs = havoc(eng, b0, mv, mo, depth, spec, endvals)
        i = fresh("int", "i")
        bs = hs.copy()
        bs.assume_(z3.And(i >= 0, i < view.n))
        for f in view.facts(i):
            bs.assume_(f)
        bs.ghost["loopidx"] = outer + (i,)
        if spec is not None and spec.start:
            spec.start(LoopCtx(eng, bs, st, i, view.n, view.term, outer))
        ends = []
        for s1 in eng.assign(bs, node.target, view.elem(i)):
            ends += [s2 for k, s2, v in eng.block(node.body, s1) if k in ("norm", "cont")]
        mv2, mo2, ev2, mg2 = diff_states(bs, ends, names)
        new = not (mv2 <= mv) or any(o not in mo or not (mo2[o] <= mo[o]) for o in mo2) or not mg2 <= mg
        mv |= mv2
        mg |= mg2
        for o, f in mo2.items():
            mo.setdefault(o, set()).update(f)
        for k_, v_ in ev2.items():
            endvals.setdefault(k_, [])
            endvals[k_] += v_
        if not new:
            flags = find_flags(st, hs, bs, ends, i, mv, view) if spec is None or spec.inv is None else {}
            break
    else:
        eng.recording -= 1
        raise Unsupported("loop frame does not stabilise", node)
    del eng.lost[lost_n:]
    eng.sink = saved_sink
    eng.recording -= 1
    eng.mod_cache[ck] = (mv, mo, endvals, mg)
    for g in mg:
        endvals[("ghost", g)] = []
    # ---- the real pass ----
    entry = st.copy()
    for oid in mo:
        acc(eng, entry, oid)
        o = entry.heap[oid]
        if hasattr(o, "births") and len(o.births) < depth:
            I = z3.ArraySort(V, z3.IntSort())
            nb = o.births + tuple(fresh(I, "birth0") for _ in range(depth - len(o.births)))
            if isinstance(o, SetObj):
                entry.heap[oid] = SetObj(o.arr, nb)
            elif isinstance(o, AccList):
                entry.heap[oid] = AccList(o.arr, o.len, nb, o.seq)
            elif isinstance(o, MapObj):
                entry.heap[oid] = MapObj(o.dom, o.val, nb)

    def inv(s, idx):
        if flags:
            return flag_inv(eng, flags, entry, s, idx, view)
        if spec is None or spec.inv is None:
            return []
        try:
            c = LoopCtx(eng, s, entry, idx, view.n, view.term, outer)
            c.mods, c.modobjs = mv, mo
            c.elem = view.elem
            c.view_seq = lambda j: view.elem(j).t
            return spec.inv(c)
        except LostAnnotation as e:
            eng.lost.append("%s: %s" % (label, e))
            return []
    for nm, f in inv(entry, z3.IntVal(0)):
        eng.prove(entry, f, "%s: invariant '%s' on entry" % (label, nm), node)
    born = mark()
    hs = havoc(eng, entry, mv, mo, depth, spec, endvals)
    i = fresh("int", "i")
    bs = hs.copy()
    bs.assume_(z3.And(i >= 0, i < view.n))
    for f in view.facts(i):
        bs.assume_(f)
    for nm, f in inv(bs, i):
        bs.assume_(f)
    bs.ghost["loopidx"] = outer + (i,)
    if spec is not None and spec.start:
        c0 = LoopCtx(eng, bs, entry, i, view.n, view.term, outer)
        c0.mods, c0.modobjs, c0.elem, c0.view_seq = mv, mo, view.elem, lambda j: view.elem(j).t
        spec.start(c0)
    base_pc, base_facts = len(bs.pc), len(bs.facts)
    out, ends = [], []
    for s1 in eng.assign(bs, node.target, view.elem(i)):
        for k, s2, v in eng.block(node.body, s1):
            if k in ("norm", "cont"):
                ends.append(s2)
            else:
                s3 = s2.copy()
                s3.ghost["loopidx"] = outer
                out.append(("norm" if k == "break" else k, s3, v))
    eng.sink = [(restore_idx(s, outer), e) for s, e in eng.sink]
    for s2 in ends:
        for nm, f in inv(s2, i + 1):
            eng.prove(s2, f, "%s: invariant '%s' preserved" % (label, nm), node)
        if spec is not None and spec.end:
            for nm, f in spec.end(LoopCtx(eng, s2, bs, i, view.n, view.term, outer)):
                eng.prove(s2, f, "%s: %s" % (label, nm), node)
    # ---- exit ----
    xs = havoc(eng, entry, mv, mo, depth, spec, endvals)
    for n in mv:
        if n not in entry.env:
            xs.env[n] = UNDEF
    for nm, f in inv(xs, view.n):
        xs.assume_(f)
    summ = auto_summary(bs, ends, i, base_pc, born, view)
    if summ is not None:
        xs.assume_(summ)
    xs.ghost["loopidx"] = outer
    # variables bound by the loop target keep an arbitrary value if the sequence was non-empty
    for n in names:
        if n in mv and n not in entry.env:
            xs.env[n] = UNDEF
    tgt = node.target
    if isinstance(tgt, ast.Name) and tgt.id in xs.env or isinstance(tgt, ast.Name):
        if ends:
            nz = xs.copy()
            nz.assume_(view.n > 0)
            sts = eng.assign(nz, tgt, view.elem(view.n - 1)) if eng.feasible(nz) else []
            z = xs.copy()
            z.assume_(view.n <= 0)
            z.env[tgt.id] = entry.env.get(tgt.id, UNDEF)
            res = ([z] if eng.feasible(z) else []) + sts
            res = eng.merge_states(res)
        else:
            z = xs.copy()
            z.assume_(view.n <= 0)
            res = [z] if eng.feasible(z) else []
    else:
        res = [xs]
        if not ends:
            xs.assume_(view.n <= 0)
            res = [xs] if eng.feasible(xs) else []
    for s in res:
        if node.orelse:
            out += eng.block(node.orelse, s)
        else:
            out.append(("norm", s, None))
    return out


def find_flags(st, hs, bs, ends, i, mv, view):
    """Boolean variables that the loop only ever switches on (or only off): name -> (on, condition of a round as a formula over i)."""
    out = {}
    if not ends:
        return out
    born = bs.born if hasattr(bs, "born") else None
    for n in mv:
        x0, b = st.env.get(n), hs.env.get(n)
        if not (isinstance(x0, bool) or isinstance(x0, Sym) and x0.sort == "bool") or not (isinstance(b, Sym) and b.sort == "bool" and z3.is_const(b.t)):
            continue
        rows = []
        for s in ends:
            v = s.env.get(n)
            vt = z3.BoolVal(v) if isinstance(v, bool) else v.t if isinstance(v, Sym) and v.sort == "bool" else None
            defs = named(s, 0)
            rel = [unname(t, defs) for t in s.pc[len(bs.pc):]]
            rows.append((z3.And(*rel) if rel else z3.BoolVal(True), None if vt is None else unname(vt, defs)))
        if any(v is None for _, v in rows):
            continue
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        at_ = lambda v, x: z3.simplify(z3.substitute(v, (b.t, x)))
        if all(z3.is_true(at_(v, T)) for _, v in rows):
            on, c = True, z3.simplify(z3.Or(*[z3.And(r, at_(v, F)) for r, v in rows]))
        elif all(z3.is_false(at_(v, F)) for _, v in rows):
            on, c = False, z3.simplify(z3.Or(*[z3.And(r, z3.Not(at_(v, T))) for r, v in rows]))
        else:
            continue
        ok = True
        lo = int(i.decl().name().rsplit("!", 1)[1])
        changed = {x.t.decl().name() for k, x in hs.env.items() if k in mv and isinstance(x, Sym) and z3.is_const(x.t)}
        for m in V_.symbols([c]):
            if m == i.decl().name():
                continue
            if m in changed:
                ok = False
            if "!" in m:
                try:
                    ok = ok and int(m.rsplit("!", 1)[1]) < lo
                except ValueError:
                    pass
        if ok:
            out[n] = (on, c, i)
    return out


def flag_inv(eng, flags, entry, s, idx, view):
    """Invariant of the flags: switched in one of the rounds so far."""
    out = []
    for n, (on, c, i) in sorted(flags.items()):
        v, x0 = s.env.get(n), entry.env.get(n)
        t = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x.t if isinstance(x, Sym) and x.sort == "bool" else None
        v, x0 = t(v), t(x0)
        if v is None or x0 is None:
            continue
        j = z3.Int("j!flag")
        cj = z3.substitute(c, (i, j))
        rng = z3.And(0 <= j, j < idx)
        if not on:
            v, x0 = z3.Not(v), z3.Not(x0)
        p = view.patterns(j)
        body = z3.Implies(z3.And(rng, cj), v)
        try:
            back = z3.ForAll([j], body, patterns=p) if p else z3.ForAll([j], body)
        except z3.Z3Exception:
            back = z3.ForAll([j], body)
        out += [("%s: switched only when a round does" % n, z3.Implies(v, z3.Or(x0, z3.Exists([j], z3.And(rng, cj))))),
                ("%s: switched when a round does" % n, z3.And(z3.Implies(x0, v), back))]
    return out


def restore_idx(s, outer):
    if s.ghost.get("loopidx", ()) == outer:
        return s
    s = s.copy()
    s.ghost["loopidx"] = outer
    return s


def named(s, born):
    """The formulas that boolean constants created since stand for: (defined ones, implied ones)."""
    eq, imp = {}, {}
    for f in s.facts:
        if z3.is_eq(f) and is_bool_const(f.arg(0), born):
            eq[f.arg(0).decl().name()] = f.arg(1)
        elif z3.is_eq(f) and is_bool_const(f.arg(1), born):
            eq[f.arg(1).decl().name()] = f.arg(0)
        elif z3.is_implies(f) and is_bool_const(f.arg(0), born):
            imp.setdefault(f.arg(0).decl().name(), []).append(f.arg(1))
    return eq, imp


def is_bool_const(t, born):
    if not (z3.is_const(t) and z3.is_bool(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return False
    n = t.decl().name().rsplit("!", 1)
    return len(n) == 2 and n[0] in ("def", "path") and n[1].isdigit() and int(n[1]) >= born


def unname(t, defs, n=0):
    eq, imp = defs
    if z3.is_const(t) and t.decl().name() in imp:
        return z3.And(*[unname(x, defs, n + 1) for x in imp[t.decl().name()]])
    if z3.is_and(t):
        return z3.And(*[unname(x, defs, n) for x in t.children()])
    for _ in range(5):
        sub = [(z3.Bool(x), eq[x]) for x in V_.symbols([t]) if x in eq]
        if not sub:
            break
        t = z3.substitute(t, *sub)
    return t


def auto_summary(bs, ends, i, base_pc, born, view):
    """forall visited i: one of the normal outcomes' path conditions held (only if it mentions nothing created in the loop)."""
    if not ends:
        return None
    iname = i.decl().name()
    disj = []
    for s in ends:
        rel = []
        defs = named(s, born)
        for t in s.pc[base_pc:]:
            t = unname(t, defs)
            syms = [n for n in V_.symbols([t]) if n != iname]
            ok = True
            for n in syms:
                if "!" in n:
                    try:
                        if int(n.rsplit("!", 1)[1]) >= born:
                            ok = False
                            break
                    except ValueError:
                        pass
            if ok:
                rel.append(t)
        disj.append(z3.And(*rel))
    f = z3.simplify(z3.Or(*disj)) if len(disj) > 1 else z3.simplify(disj[0])
    if z3.is_true(f):
        return None
    j = z3.Int("j!" + iname.replace("!", "_"))
    body = z3.substitute(f, (i, j))
    pats = view.patterns(j)
    body = z3.Implies(z3.And(j >= 0, j < view.n), body)
    try:
        return z3.ForAll([j], body, patterns=pats) if pats else z3.ForAll([j], body)
    except z3.Z3Exception:
        return z3.ForAll([j], body)


def run_while(eng, node, st):
    t = ast.unparse(node.test)
    return while_loop(eng, node, st, lambda s: eng.cond(node.test, s), "while " + t, isinstance(node.test, ast.Constant) and bool(node.test.value))


def run_itercall(eng, node, st, it):
    """for x in iter(f, sentinel)"""
    def condf(s):
        ts, fs = [], []
        for s1, v in eng.call(s, it.f, [], {}, node):
            e = eng.B.eq_term(s1, v, it.sentinel)
            if e is None:
                raise Unsupported("sentinel comparison", node)
            y, n = eng.fork(s1, e)
            if y is not None:
                fs.append(y)
            if n is not None:
                ts += eng.assign(n, node.target, v)
        return eng.merge_states(ts), eng.merge_states(fs)
    return while_loop(eng, node, st, condf, ast.unparse(node.iter), False)


def while_loop(eng, node, st, condf, text, forever):
    # first try to run it concretely / unroll while the condition is decided
    cur, out = [st], []
    probe = condf(st)
    if not probe[0]:
        res = []
        for s in probe[1]:
            res += eng.block(node.orelse, s) if node.orelse else [("norm", s, None)]
        return res
    spec = find_spec(eng, node, text, st)
    if spec is None and not forever:
        # decided conditions only: unroll
        n = 0
        while cur and n < UNROLL:
            nxt = []
            undecided = False
            for s in cur:
                t, f = condf(s)
                if t and f:
                    undecided = True
                    break
                out += [("norm", x, None) for x in f]
                for x in t:
                    for k, s2, v in eng.block(node.body, x):
                        if k in ("norm", "cont"):
                            nxt.append(s2)
                        elif k == "break":
                            out.append(("norm", s2, None))
                        else:
                            out.append((k, s2, v))
            if undecided:
                break
            cur = eng.merge_states(nxt)
            n += 1
        else:
            if not cur:
                return out
        if not cur:
            return out
        if n:
            raise Unsupported("while loop without invariant", node)
        cur = [st]
        out = []
    label = "%s loop %s" % (eng.funcstack[-1] if eng.funcstack else "", text)
    if spec is None:
        eng.lost.append(label)
    names = assigned_names(node.body) | assigned_names([ast.Expr(x) for x in (getattr(node, "target", None), getattr(node, "test", None)) if x is not None])
    outer = st.ghost.get("loopidx", ())
    depth = len(outer) + 1
    mv, mo, endvals, mg = set(), {}, {}, set()
    eng.recording += 1
    saved_sink = eng.sink
    lost_n = len(eng.lost)
    for rnd in range(8):
        eng.sink = []
        b0 = st.copy()
        for oid in mo:
            acc(eng, b0, oid)
        for g in mg:
            endvals[("ghost", g)] = []
        bs = havoc(eng, b0, mv, mo, depth, spec, endvals)
        bs.ghost["loopidx"] = outer + (fresh("int", "i"),)
        ends = []
        for x in condf(bs)[0]:
            ends += [s2 for k, s2, v in eng.block(node.body, x) if k in ("norm", "cont")]
        mv2, mo2, ev2, mg2 = diff_states(bs, ends, names)
        new = not (mv2 <= mv) or any(o not in mo or not (mo2[o] <= mo[o]) for o in mo2) or not mg2 <= mg
        mv |= mv2
        mg |= mg2
        for o, f in mo2.items():
            mo.setdefault(o, set()).update(f)
        for k_, v_ in ev2.items():
            endvals.setdefault(k_, [])
            endvals[k_] += v_
        if not new:
            break
    else:
        eng.recording -= 1
        raise Unsupported("loop frame does not stabilise", node)
    del eng.lost[lost_n:]
    eng.sink = saved_sink
    eng.recording -= 1
    for g in mg:
        endvals[("ghost", g)] = []
    entry = st.copy()
    for oid in mo:
        acc(eng, entry, oid)

    def inv(s, idx):
        if spec is None or spec.inv is None:
            return []
        try:
            c = LoopCtx(eng, s, entry, idx, None, None, outer)
            c.mods, c.modobjs = mv, mo
            return spec.inv(c)
        except LostAnnotation as e:
            eng.lost.append("%s: %s" % (label, e))
            return []
    for nm, f in inv(entry, z3.IntVal(0)):
        eng.prove(entry, f, "%s: invariant '%s' on entry" % (label, nm), node)
    hs = havoc(eng, entry, mv, mo, depth, spec, endvals)
    i = fresh("int", "i")
    hs.assume_(i >= 0)
    for nm, f in inv(hs, i):
        hs.assume_(f)
    hs.ghost["loopidx"] = outer + (i,)
    ts, fs = condf(hs)
    for x in ts:
        for k, s2, v in eng.block(node.body, x):
            if k in ("norm", "cont"):
                for nm, f in inv(s2, i + 1):
                    eng.prove(s2, f, "%s: invariant '%s' preserved" % (label, nm), node)
            else:
                out.append(("norm" if k == "break" else k, restore_idx(s2, outer), v))
    eng.sink = [(restore_idx(s, outer), e) for s, e in eng.sink]
    for s in fs:
        s = restore_idx(s, outer)
        out += eng.block(node.orelse, s) if node.orelse else [("norm", s, None)]
    return out
