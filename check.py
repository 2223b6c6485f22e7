#!/usr/bin/env python3
"""check.py PROP [--thorough]: decide one property on /repo's current tree.

1. generate the proof obligations of every function contract that carries the property, from the current source;
2. discharge them (z3, then cvc5);
3. beside that, search for a failing input on the real code (bounded; replays counterexamples).
Exit 0, or exit 1 with a VIOLATION line.
"""
import os
import sys

VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/veriftools/pyvenv" and os.path.exists(VT) and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(VT, [VT, "-B"] + sys.argv)

import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import pickle
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
NOBODY = 65534
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))

TRUSTED = [
    "pyvc (this verification-condition generator): its semantics of Python expressions, statements and the modelled library calls, "
    "cross-checked against CPython by the witness searches and by planted changes",
    "z3 5.x (python API) and cvc5 1.1.2",
    "CPython's ast parser",
]


def load_tasks(prop):
    from pyvc import task
    for p in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        n = os.path.basename(p)[:-3]
        if n != "__init__":
            importlib.import_module("contracts." + n)
    return [t for t in task.TASKS if prop in t.props]


def start_witness(prop, seconds, seed, hints=None):
    d = tempfile.mkdtemp(prefix="verif-w-")
    os.chown(d, NOBODY, NOBODY)
    cmd = [PY, "-B", "-W", "ignore", os.path.join(HERE, "witness", "run.py"), prop, "--seconds", str(seconds), "--seed", str(seed), "--scratch", d]
    if hints:
        hp = os.path.join(d, "hints.json")
        with open(hp, "w") as fh:
            json.dump(hints, fh)
        os.chmod(hp, 0o644)
        cmd += ["--hints", hp]

    def demote():
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "VERIF_REPO", "VERIF_TIER")}
    env.update({"HOME": d, "TMPDIR": d, "VERIF_SEED": str(seed), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(seed % 4294967295)})
    out = open(os.path.join(d, "out.txt"), "w+")
    err = open(os.path.join(d, "err.txt"), "w+")
    p = subprocess.Popen(cmd, stdout=out, stderr=err, cwd=d, preexec_fn=demote, env=env)
    return p, d, out, err, time.time() + seconds


def finish_witness(w):
    p, d, out, err, deadline = w
    try:
        p.wait(timeout=max(5, deadline - time.time() + 60))
        note = None
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        note = "witness search did not stop in time"
    out.seek(0)
    txt = out.read()
    err.seek(0)
    etxt = err.read()
    shutil.rmtree(d, ignore_errors=True)
    for line in txt.splitlines():
        if line.startswith("WITNESS "):
            r = json.loads(line[8:])
            r["note"] = note
            return r
    return {"evaluations": 0, "distinct": 0, "failures": [], "samples": [], "rule": "", "known": [], "error": note or ("no answer: " + etxt[-800:]), "wall_s": 0}


def fingerprint(repo, quals):
    """Hash of the normalised source (no comments, docstrings or positions) of the functions a task's proof depended on."""
    import ast
    h = hashlib.sha256()
    for q in sorted(quals):
        f = repo.find(q)
        if f is None:
            h.update((q + "?").encode())
            continue
        h.update((q + ast.dump(f[2])).encode())
    return h.hexdigest()


def run_task(t, sem, thorough):
    """In a child process: generate and discharge; returns a picklable summary."""
    from pyvc import task, solve
    from pyvc.loader import Repo
    repo = Repo()
    r = task.generate(t, repo)
    budget = t.timeout * (4 if thorough else 1)
    solve.run_obligations(r.obls + r.covers, sem, budget, 8)
    for o in r.obls:
        if o.result == "unknown":      # once more, alone and with more time
            sem.acquire()
            try:
                solve.discharge(o, budget * 2)
            except Exception as e:
                o.detail = "solver error %s" % e
            finally:
                sem.release()
    return {"name": t.name, "func": t.func, "undecided": r.undecided, "error": r.error, "gen_s": r.gen_s,
            "inlined": list(r.inlined), "summaries": list(r.summaries), "ext": list(r.ext),
            "fp": fingerprint(repo, set(r.inlined) | {t.func}),
            "assumes": list(getattr(t, "assumes", ())),
            "obls": [(o.name, o.result, o.backend, o.time, o.detail, o.line) for o in r.obls],
            "covers": [(o.name, o.result, o.time) for o in r.covers]}


def run_tasks(tasks, thorough):
    sem = mp.BoundedSemaphore(8)
    deadline = time.time() + (20000 if thorough else 720)
    todo, running, results = list(enumerate(tasks)), {}, [None] * len(tasks)
    todo.sort(key=lambda x: -x[1].weight)
    while todo or running:
        while todo and len(running) < 8:
            i, t = todo.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                os.setpgid(0, 0)
                try:
                    res = run_task(t, sem, thorough)
                    data = pickle.dumps(res)
                except BaseException as e:
                    data = pickle.dumps({"name": t.name, "func": t.func, "undecided": ["checker error: %r" % (e,)], "error": repr(e), "gen_s": 0,
                                         "inlined": [], "summaries": [], "ext": [], "fp": "", "assumes": [], "obls": [], "covers": []})
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(wr)
            running[rd] = (pid, i, bytearray())
        import select
        ready, _, _ = select.select(list(running), [], [], 1.0)
        if time.time() > deadline:      # a solver that does not stop: what is left counts as undecided
            todo = []
            for pid, i, buf in running.values():
                try:
                    os.killpg(pid, 9)
                except OSError:
                    pass
        for rd in ready:
            pid, i, buf = running[rd]
            b = os.read(rd, 1 << 16)
            if b:
                buf += b
                continue
            os.close(rd)
            os.waitpid(pid, 0)
            del running[rd]
            try:
                results[i] = pickle.loads(bytes(buf))
            except Exception:
                t = tasks[i]
                results[i] = {"name": t.name, "func": t.func, "undecided": ["checker process died"], "error": "died", "gen_s": 0,
                              "inlined": [], "summaries": [], "ext": [], "fp": "", "assumes": [], "obls": [], "covers": []}
    return [r or {"name": t.name, "func": t.func, "undecided": ["out of time"], "error": None, "gen_s": 0, "inlined": [], "summaries": [], "ext": [], "fp": "",
                  "assumes": [], "obls": [], "covers": []} for r, t in zip(results, tasks)]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: property=%s " % prop):])
    return out


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    wit = start_witness(prop, 240 if thorough else 25, seed)
    tasks = load_tasks(prop)
    results = run_tasks(tasks, thorough)
    wres = finish_witness(wit)
    base = {}
    bp = os.path.join(HERE, "proved.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    failed, undecided, flaky, n_obl, n_ok, backends, secs = [], [], [], 0, 0, {}, 0.0
    for r in results:
        secs += r["gen_s"] + sum(o[3] for o in r["obls"])
        bad = [o for o in r["obls"] if o[1] != "proved"]
        anyof = {c[0] for c in r["covers"] if c[0].startswith("cover any: ") and c[1] != "contradictory"}
        contradictory = [c for c in r["covers"] if c[1] == "contradictory" and c[0] not in anyof]
        if r["undecided"]:
            undecided.append((r, r["undecided"]))
            continue
        if contradictory or not r["obls"]:
            undecided.append((r, ["vacuous: " + (", ".join(c[0] for c in contradictory) or "no obligations")]))
            continue
        n_obl += len(r["obls"])
        for o in r["obls"]:
            if o[1] == "proved":
                n_ok += 1
                backends[o[2]] = backends.get(o[2], 0) + 1
        if bad:
            if all(o[1] == "unknown" for o in bad) and base.get(r["name"]) == r["fp"]:
                flaky.append((r, bad))          # same code was proved before: the solver ran out of time
            else:
                failed += [(r, o) for o in bad]
    lines, violations = [], 0
    for f in known_findings(prop):
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, f))
    rdir = os.path.join(HERE, "evidence", "replay") if EVID == os.path.join(HERE, "evidence") else os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*")):
        os.unlink(old)
    fails = list(wres["failures"])
    if failed and not fails:
        hints = [{"task": r["name"], "inputs": o[4].get("inputs", {}) if isinstance(o[4], dict) else {}} for r, o in failed]
        w2 = finish_witness(start_witness(prop, 150 if thorough else 60, seed + 1000, [h for h in hints if h["inputs"]]))
        fails = list(w2["failures"])
        wres["evaluations"] += w2["evaluations"]
        wres["distinct"] += w2["distinct"]
        wres["error"] = wres["error"] or w2["error"]
    if fails:
        violations = len(fails)
        rp = os.path.join(rdir, "%s-1.json" % prop)
        f = fails[0]
        with open(rp, "w") as fh:
            json.dump({"property": prop, "what": f["what"], "input": f["input"], "others": fails[1:],
                       "failed_obligations": ["%s: %s" % (r["name"], o[0]) for r, o in failed],
                       "how": "%s %s/witness/run.py %s --replay %s" % (PY, HERE, prop, rp)}, fh, indent=1)
        lines.append("failing input on the real code: %s" % f["what"])
        for r, o in failed:
            lines.append("failed obligation: %s: %s (%s)" % (r["name"], o[0], o[1]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
    elif failed:
        violations = len(failed)
        rp = os.path.join(rdir, "%s-1.json" % prop)
        with open(rp, "w") as fh:
            json.dump({"property": prop, "failed_obligations": [{"function": r["func"], "task": r["name"], "obligation": o[0], "line": o[5],
                                                                 "result": o[1], "backend": o[2], "solver_output": o[4]} for r, o in failed]}, fh, indent=1)
        for r, o in failed:
            lines.append("failed obligation: %s: %s (%s)" % (r["name"], o[0], o[1]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    for r, why in undecided:
        lines.append("undecided (bounded search only): %s: %s" % (r["name"], "; ".join(why)[:300]))
    for r, bad in flaky:
        lines.append("undecided (solver out of time on unchanged code): %s: %s" % (r["name"], ", ".join(o[0] for o in bad)[:300]))
    if wres["error"]:
        lines.append("note: witness search: %s" % wres["error"][-600:])
    proof = n_obl > 0
    n_obl_all = n_obl + sum(max(1, len(r["obls"])) for r, _ in undecided)
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof" if proof else "exploration",
          "coverage": {
              "obligations": n_obl_all, "discharged": n_ok, "checker_cmd": "python3-vt /verif/check.py %s" % prop, "trusted_base": TRUSTED,
              "functions_under_contract": sorted({r["func"] for r in results if not r["undecided"]}),
              "functions_inlined_from_source": sorted({q for r in results for q in r["inlined"]}),
              "contracts_used_at_call_sites": sorted({q for r in results for q in r["summaries"]}),
              "library_contracts_assumed": sorted({q for r in results for q in r["ext"]}),
              "backends": backends, "solver_and_generation_s": round(secs, 2),
              "covers_reached": sum(1 for r in results for c in r["covers"] if c[1] == "reachable"),
              "undecided": [{"task": r["name"], "why": why} for r, why in undecided],
              "per_task": [{"task": r["name"], "obligations": len(r["obls"]), "discharged": sum(1 for o in r["obls"] if o[1] == "proved")} for r in results],
              "evaluations": wres["evaluations"], "distinct_nontrivial": wres["distinct"],
              "rule": "bounded witness search on the real code (not counted as proof): " + wres["rule"], "samples": wres["samples"] or ["none"]},
          "assumptions": sorted({a for r in results for a in r["assumes"]}),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d of %d obligations discharged (%s), %d contracts, %d undecided; witness search: %d evaluations; %.1f s" % (
        prop, n_ok, n_obl_all, ", ".join("%s %d" % x for x in sorted(backends.items())), len(results), len(undecided), wres["evaluations"], time.time() - t0))
    for ln in lines:
        print(ln)
    if "--record" in sys.argv and not violations:
        for r in results:
            if not r["undecided"]:
                base[r["name"]] = r["fp"]
        with open(bp, "w") as fh:
            json.dump(base, fh, indent=0, sort_keys=True)
    if "-v" in sys.argv:
        for r in results:
            print(r["name"], "gen %.1f" % r["gen_s"], len(r["obls"]), [(o[0], o[1], round(o[3], 1)) for o in r["obls"] if o[3] > 3 or o[1] != "proved"], r["undecided"])
            if r["error"]:
                print(r["error"])
    sys.stdout.flush()
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
