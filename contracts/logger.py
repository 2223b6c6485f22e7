"""C17: the validation logger counts every error and warning and never raises (ocfl/validation_logger.py)."""
import json
import os
import re

import z3

from pyvc.engine import State, LoopSpec
from pyvc.loader import REPO
from pyvc.task import task
from pyvc.values import Sym, Opaque, fresh, AccList, MapObj, EMPTY, V, kind, jlen, at, mem, has, get, key, nk, lit, KS, KD, KL, SetS, EXTRA_AXIOMS

FMTOK = z3.Function("fmt_ok", V, z3.BoolSort())


def data_ok(cs):
    """What the code table has to satisfy: descriptions are texts with only %s conversions, params are lists of names."""
    k, l = z3.Consts("k l", V)
    i = z3.Int("i")
    e = get(cs, k)
    d = get(e, lit("description"))
    p = get(e, lit("params"))
    return z3.And(
        kind(cs) == KD,
        z3.ForAll([k], z3.Implies(has(cs, k), z3.And(kind(k) == KS, kind(e) == KD)), patterns=[has(cs, k)]),
        z3.ForAll([k], z3.Implies(z3.And(has(cs, k), has(e, lit("description"))), kind(d) == KD), patterns=[has(e, lit("description"))]),
        z3.ForAll([k, l], z3.Implies(z3.And(has(cs, k), has(e, lit("description")), has(d, l)), z3.And(kind(get(d, l)) == KS, FMTOK(get(d, l)))),
                  patterns=[has(d, l)]),
        z3.ForAll([k], z3.Implies(z3.And(has(cs, k), has(e, lit("params"))), kind(p) == KL), patterns=[has(e, lit("params"))]),
        z3.ForAll([k, i], z3.Implies(z3.And(has(cs, k), has(e, lit("params")), 0 <= i, i < jlen(p)), kind(at(p, i)) == KS), patterns=[at(p, i)]))


def logger(c, st, cs=None):
    f = {"num_errors": Sym("int", fresh("int", "ne")), "num_warnings": Sym("int", fresh("int", "nw")),
         "log_errors": Sym("bool", fresh("bool", "le")), "log_warnings": Sym("bool", fresh("bool", "lw")),
         "lang": Sym("V", fresh("V", "lang")), "spec_version": Sym("V", fresh("V", "spec"))}
    cs = cs if cs is not None else fresh("V", "codes_table")
    st.assume_(data_ok(cs))
    st.assume_(z3.And(kind(f["lang"].t) == KS, kind(f["spec_version"].t) == KS))
    f["validation_codes"] = Sym("V", cs)
    ln = fresh("int", "len")
    st.assume_(ln >= 0)
    f["messages"] = c.eng.alloc(st, AccList(fresh(SetS, "msgs"), ln))
    f["codes"] = c.eng.alloc(st, MapObj(fresh(SetS, "seen"), fresh(z3.ArraySort(V, V), "seenval")))
    return c.inst(st, "validation_logger", "ValidationLogger", f), f, ln


def fields(st, r):
    return st.heap[r.oid].fields


def iterm(c, x):
    return c.eng.toint(x)


@task(["C17", "C01", "C02", "C03"], "validation_logger.ValidationLogger.error", clause="error() and warning() count and never raise")
def error_warning(c):
    for which, num, other, switch in (("error", "num_errors", "num_warnings", "log_errors"), ("warning", "num_warnings", "num_errors", "log_warnings")):
        st = State()
        r, f, ln = logger(c, st)
        code = fresh("V", "code")
        args = fresh("V", "args")
        st.assume_(z3.And(kind(code) == KS, kind(args) == KD))
        rets, raises = c.run(st, [Sym("V", code)], {"**": Sym("V", args)}, qual="validation_logger.ValidationLogger." + which, self_=r)
        for s, e in raises:
            c.eng.unreachable(s, "%s() never raises (%s)" % (which, e.name))
        for s, v in rets:
            c.cover(s, which)
            g = fields(s, r)
            c.prove(s, iterm(c, g[num]) == f[num].t + 1, "%s() adds one to %s" % (which, num))
            c.prove(s, iterm(c, g[other]) == f[other].t, "%s() leaves %s alone" % (which, other))
            for sw in ("log_errors", "log_warnings", "lang", "spec_version"):
                c.prove(s, c.eng.toV(g[sw]) == c.eng.toV(f[sw]) if not sw.startswith("log") else g[sw].t == f[sw].t, "%s() leaves %s alone" % (which, sw))
            m = s.heap[g["messages"].oid]
            n = m.len if isinstance(m, AccList) else z3.IntVal(len(m.items))
            c.prove(s, n == ln + z3.If(f[switch].t, 1, 0), "%s() keeps the message exactly when switched on" % which)
            c.prove(s, c.eng.as_setarr(s.heap[g["codes"].oid])[code], "%s() records the code" % which)
    c.eng.lost[:] = [x for x in c.eng.lost if "params" not in x]     # the loop building message texts needs no invariant


@task("C17", "validation_logger.ValidationLogger.__init__", clause="starts with no errors, switches as given, for any arguments")
def init(c):
    st = State()
    c.eng.ext["json.load"] = lambda eng, st, a, kw, node: [(st, Sym("V", fresh("V", "shipped_table")))]     # the table is checked by the task below
    cs = fresh("V", "codes_table")
    st.assume_(data_ok(cs))
    le, lw = fresh("bool", "le"), fresh("bool", "lw")
    spec, lang = fresh("V", "spec"), fresh("V", "lang")
    r = c.inst(st, "validation_logger", "ValidationLogger", {})
    rets, raises = c.run(st, [], {"log_warnings": Sym("bool", lw), "log_errors": Sym("bool", le), "spec_version": Sym("V", spec), "lang": Sym("V", lang),
                                  "validation_codes": Sym("V", cs)}, self_=r)
    for s, e in raises:
        c.eng.unreachable(s, "does not raise (%s)" % e.name)
    for s, v in rets:
        c.cover(s, "init")
        g = fields(s, r)
        c.prove(s, z3.And(iterm(c, g["num_errors"]) == 0, iterm(c, g["num_warnings"]) == 0), "starts with no errors and warnings")
        c.prove(s, z3.And(g["log_errors"].t == le, g["log_warnings"].t == lw), "switches as given")


@task("C17", "validation_logger.ValidationLogger.log", clause="the shipped code table satisfies what log() needs")
def table(c):
    with open(os.path.join(c.repo.root, "ocfl", "data", "validation-errors.json"), encoding="utf-8") as fh:
        data = json.load(fh)
    n = 0
    bad = []
    for k, e in data.items():
        n += 1
        ok = isinstance(e, dict)
        d = e.get("description", {}) if ok else None
        ok = ok and isinstance(d, dict) and all(isinstance(x, str) and re.fullmatch(r"(?:[^%]|%s|%%)*", x) for x in d.values())
        p = e.get("params", []) if ok else None
        ok = ok and isinstance(p, list) and all(isinstance(x, str) for x in p)
        if not ok:
            bad.append(k)
    c.prove(State(), z3.BoolVal(isinstance(data, dict) and not bad), "all %d entries well formed %s" % (n, bad))
