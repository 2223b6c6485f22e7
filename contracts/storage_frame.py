"""C19: frame conditions ("modifies" clauses) of the reading operations.

Every function reached from a reading operation has a contract `modifies R` (R a set of roots: parameters, attributes of self, or the local
filesystem); the contract is inferred as the least fixed point over the package and then every call site of every function reached is checked
against it: one obligation per call site.  The reading operations themselves must come out as `modifies nothing`, the extracting ones as
`modifies what dstdir names`."""
import z3

from pyvc.engine import Obligation, State
from pyvc.frame import Frame
from pyvc.task import task
from pyvc.values import Unsupported

READERS = ["validator.Validator.validate_object", "validator.Validator.validate_inventory", "object.Object.validate", "object.Object.validate_inventory",
           "object.Object.tree", "object.Object.parse_inventory", "object.Object.id_from_inventory", "storage_root.StorageRoot.list_objects",
           "storage_root.StorageRoot.validate", "storage_root.StorageRoot.object_path", "object_utils.find_path_type", "namaste.find_namastes",
           "namaste.Namaste.content_ok", "inventory.Inventory.__init__"]
EXTRACTORS = ["object.Object.extract", "object.Object.extract_file"]
ASSUME = ["frame conditions rest on the tables in pyvc/frame.py: which methods of an fsspec filesystem and which library functions change storage (a method or function in no table makes the check undecided, not passed)",
          "types of locals and attributes are inferred from assignments and from the naming of filesystem values; a call of a function held in a value reaches any function of the package that is used as a value and takes as many arguments",
          "the destination of an extraction is not a path inside the object that is read; temporary directories are not part of the storage",
          "fsspec's reading operations (ls, exists, isfile, isdir, info, open for reading, walk) do not change the storage"]


def check(c, allowed):
    eng, q = c.eng, c.t.func
    if c.repo.find(q) is None:
        raise Unsupported("function %s not found" % q)
    fr = Frame(c.repo)
    s = fr.contract(q)
    unknown = sorted({(k[0], u) for k in fr.done for u in fr.memo[k].unknown})
    seen = set()

    def emit(name, ok, line, detail=None):
        if (name, ok) in seen:
            return
        seen.add((name, ok))
        o = Obligation(name, [], z3.BoolVal(bool(ok)), eng.task, None)
        o.result, o.backend, o.detail, o.line = ("proved" if ok else "refuted"), "frame", detail, line
        eng.obls.append(o)

    def chain(key, roots, depth=0):
        """Where the modification happens."""
        out = []
        for x in fr.memo[key].sites:
            if x.roots & roots:
                out.append("%s%s:%d %s (%s) modifies %s" % ("  " * depth, key[0], x.line, x.text[:90], x.what, ", ".join(sorted(x.roots))))
                if depth < 6 and x.what.startswith("call of "):
                    for k in fr.done:
                        if k[0] == x.what[8:] and fr.memo[k].mods:
                            out += chain(k, fr.memo[k].mods, depth + 1)[:6]
        return out
    for key in sorted(fr.done, key=str):
        if key[0] == q and key[1] == ():
            continue
        m = fr.memo[key]
        for x in m.sites:
            emit("%s: %s modifies at most {%s}" % (key[0], x.text[:70], ", ".join(sorted(m.mods))), x.roots <= m.mods, x.line)
    for x in s.sites:
        bad = x.roots - allowed
        emit("%s modifies nothing it may not" % x.text[:80], not bad, x.line, chain((q, ()), frozenset(bad))[:30] if bad else None)
    emit("modifies at most {%s}" % ", ".join(sorted(allowed)), s.mods <= allowed, None, chain((q, ()), s.mods - allowed)[:30])
    eng.inlined |= {k[0] for k in fr.done}
    if unknown and s.mods <= allowed:
        raise Unsupported("calls whose effect is not known: " + "; ".join("%s:%d %s (%s)" % ((f,) + u) for f, u in unknown[:5]))


for q_ in READERS:
    @task("C19", q_, "modifies nothing")
    def reader(c):
        check(c, frozenset())
    import pyvc.task
    pyvc.task.TASKS[-1].assumes = ASSUME
for q_ in EXTRACTORS:
    @task("C19", q_, "modifies only the destination")
    def extractor(c):
        check(c, frozenset({"param:dstdir"}))
    import pyvc.task
    pyvc.task.TASKS[-1].assumes = ASSUME
