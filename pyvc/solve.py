"""Discharging obligations: z3 (two configurations), then cvc5, each with a time limit; forked workers."""
import multiprocessing as mp
import os
import pickle
import re
import signal
import subprocess
import sys
import tempfile
import time

import z3

from . import values as V_

CVC5 = "cvc5"


def flat(hyps):
    out = []
    for h in hyps:
        if z3.is_and(h):
            out += flat(h.children())
        else:
            out.append(h)
    return out


def relevant(hyps, goal, rounds=4):
    """Hypotheses connected with the goal through shared constants (generated names) - used as a first, cheaper query."""
    def consts(t):
        return frozenset(n for n in V_.symbols([t]) if "!" in n)
    items = [(h, consts(h)) for h in hyps]
    used = set(consts(goal))
    chosen, rest = [], items
    for _ in range(rounds):
        nxt, grew = [], False
        for h, c in rest:
            if not c or c & used:
                chosen.append(h)
                grew = True
                used |= c
            else:
                nxt.append((h, c))
        rest = nxt
        if not grew:
            break
    return chosen


def z3_check(hyps, goal, ms, mbqi=True, seed=0):
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.set("random_seed", seed)
    if not mbqi:
        s.set("smt.mbqi", False)
    s.add(*hyps)
    g = z3.Not(goal)
    s.add(g)
    s.add(*V_.background(list(hyps) + [goal]))
    r = s.check()
    return r, s


def guarded(hyps, goal, ms, seed=0, model_of=None):
    """z3 with model-based instantiation, in a process of its own: the model finder does not always heed the time limit."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, ms / 1000.0 * 1.5 + 2)
            res, s = z3_check(hyps, goal, ms, True, seed)
            det = None
            if res == z3.sat:
                m = s.model()
                det = model_text(m)
                if model_of:
                    try:
                        det = {"model": det, "inputs": {k: value(m, t) for k, t in model_of.items()}}
                    except Exception as e:
                        det = {"model": det, "error": str(e)}
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((str(res), det)))
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return "unknown", None


def discharge(ob, budget=20.0):
    """Sets ob.result (proved / refuted / unknown), ob.backend, ob.time, ob.detail."""
    t0 = time.time()
    hyps = flat(list(ob.hyps))
    tries = [("z3", 3000, False), ("cvc5", 3, None), ("z3", 6000, True), ("z3", 6000, False)]
    strs = any(n.startswith("str.") or n.startswith("re.") or n.startswith("seq.") for n in V_.symbols(list(hyps) + [ob.goal]))
    if strs:
        tries = [("z3", 1500, True), ("cvc5", 3, None), ("z3", 6000, True)]
    ob.result = "unknown"
    from . import reg
    if reg.contradictory([x for x in hyps if V_.stringy(x)] + flat([z3.simplify(z3.Not(ob.goal))] if V_.stringy(ob.goal) else [])):
        ob.result, ob.backend, ob.time = "proved", "regex-derivatives", time.time() - t0
        return ob
    if "str.in_re" in V_.symbols([ob.goal]) and reg.find_ite(ob.goal) is not None and reg.refutable([x for x in hyps if V_.stringy(x)] + [z3.Not(ob.goal)]):
        ob.result, ob.backend, ob.time = "proved", "regex-derivatives", time.time() - t0
        return ob
    if z3.is_false(ob.goal) and "str.in_re" in V_.symbols(list(hyps)) and reg.refutable([x for x in hyps if V_.stringy(x) or reg.texteq(x)], 12):
        ob.result, ob.backend, ob.time = "proved", "regex-derivatives", time.time() - t0
        return ob
    if "str.in_re" in V_.symbols(list(hyps) + [ob.goal]):
        ab = V_.abstract_regexes(hyps + V_.ground(hyps + [ob.goal]) + [ob.goal])
        r, s = z3_check(ab[:-1], ab[-1], 1500, False)
        if r == z3.unsat:
            ob.result, ob.backend, ob.time = "proved", "z3", time.time() - t0
            return ob
    if strs:
        eqs = [(a, b) for h in hyps if z3.is_eq(h) and h.arg(0).sort() == z3.StringSort() for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))) if z3.is_const(a) and z3.is_app_of(b, z3.Z3_OP_SEQ_CONCAT)]
        if eqs and z3.is_true(z3.simplify(z3.substitute(ob.goal, *{a.get_id(): (a, b) for a, b in eqs}.values()))):
            ob.result, ob.backend, ob.time = "proved", "z3", time.time() - t0
            return ob
    seed = ob.goal if not z3.is_false(ob.goal) else (ob.hyps[-1] if ob.hyps else ob.goal)
    for rounds in (1, 2):
        small = relevant(hyps, seed, rounds)
        if len(small) < len(hyps):
            r = z3.unsat if strs and guarded(small, ob.goal, 1500, 0)[0] == "unsat" else None if strs else z3_check(small, ob.goal, 1500, False)[0]
            if r == z3.unsat:
                ob.result, ob.backend, ob.time = "proved", "z3", time.time() - t0
                return ob
    for k, (b, ms, mbqi) in enumerate(tries):
        if time.time() - t0 > budget:
            break
        if b == "cvc5":
            if cvc5_check(hyps, ob.goal, ms) == "unsat":
                ob.result, ob.backend = "proved", "cvc5"
                break
            continue
        if mbqi:
            r, det = guarded(hyps, ob.goal, min(ms, 1000 * budget), k, ob.model_of)
            if r != "unknown":
                ob.result, ob.backend, ob.detail = ("proved" if r == "unsat" else "refuted"), "z3", det
                break
            continue
        r, s = z3_check(hyps, ob.goal, min(ms, 1000 * budget), mbqi, seed=k)
        if r == z3.unsat:
            ob.result, ob.backend = "proved", "z3"
            break
        if r == z3.sat:
            ob.result, ob.backend = "refuted", "z3"
            m = s.model()
            ob.detail = model_text(m)
            if ob.model_of:
                try:
                    ob.detail = {"model": ob.detail, "inputs": {k: value(m, t) for k, t in ob.model_of.items()}}
                except Exception as e:
                    ob.detail = {"model": ob.detail, "error": str(e)}
            break
    if ob.result == "unknown":
        r = cvc5_check(hyps, ob.goal, max(5, int(budget - (time.time() - t0))))
        if r == "unsat":
            ob.result, ob.backend = "proved", "cvc5"
        elif r == "sat" and not any(z3.is_quantifier(h) for h in hyps):
            ob.result, ob.backend, ob.detail = "refuted", "cvc5", "sat (cvc5)"
        else:
            ob.detail = "z3: unknown; cvc5: %s" % r
    ob.time = time.time() - t0
    return ob


def value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_string_value(v):
        return z3str(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return str(v)


def z3str(v):
    s = v.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def model_text(m):
    t = str(m)
    return t if len(t) < 4000 else t[:4000] + " ..."


def cvc5_check(hyps, goal, secs):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    s.add(*V_.background(list(hyps) + [goal]))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    if "(_ char" in txt or "re.diff" in txt and False:
        pass
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        out = subprocess.run([CVC5, "--strings-exp", "--tlimit=%d" % (secs * 1000), p], capture_output=True, text=True,
                             timeout=secs + 5).stdout.strip()
        return out.splitlines()[0] if out else "no answer"
    except subprocess.TimeoutExpired:
        return "timeout"
    except OSError as e:
        return "error %s" % e
    finally:
        os.unlink(p)


def cover(ob, secs=3):
    """A reachability check: the hypotheses must not be contradictory."""
    t0 = time.time()
    r, _ = guarded(flat(list(ob.hyps)), z3.BoolVal(False), secs * 1000)
    ob.result = "contradictory" if r == "unsat" else "reachable"
    ob.backend = "z3"
    ob.time = time.time() - t0


def run_obligations(obls, sem=None, budget=20.0, jobs=8):
    """Discharge in forked children (they inherit the terms); results come back through pipes."""
    todo = [o for o in obls if o.result is None]
    if not todo:
        return
    n = min(jobs, max(1, len(todo) // 4 + 1))
    chunks = [todo[i::n] for i in range(n)]
    procs = []
    for ch in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = []
            code = 0
            try:
                for o in ch:
                    if sem:
                        sem.acquire()
                    try:
                        if o.goal is None:
                            cover(o)
                        else:
                            discharge(o, budget)
                    except Exception as e:
                        o.result, o.detail = "unknown", "solver error: %s" % e
                    finally:
                        if sem:
                            sem.release()
                    res.append((o.result, o.backend, o.time, o.detail))
                data = pickle.dumps(res)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        procs.append((pid, r, ch))
    for pid, r, ch in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            res = pickle.loads(data)
        except Exception:
            res = [("unknown", None, 0.0, "worker died")] * len(ch)
        for o, (a, b, c, d) in zip(ch, res):
            o.result, o.backend, o.time, o.detail = a, b, c, d
