"""Bounded search for failing inputs on the real code, and replay of recorded ones.

Runs unprivileged in a scratch directory that the caller creates and removes.
  run.py PROP --seconds N [--seed S] [--hints FILE]     search; prints one JSON line
  run.py PROP --replay FILE                             run one recorded input again (exit 1 if it still fails)
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--hints")
    ap.add_argument("--replay")
    ap.add_argument("--scratch", default=None)
    a = ap.parse_args()
    import common
    w = common.Witness(a.prop, a.seed, a.seconds, a.scratch)
    mod = importlib.import_module(a.prop.lower())
    err = None
    try:
        if a.replay:
            with open(a.replay) as fh:
                d = json.load(fh)
            mod.replay(w, d["input"])
        else:
            if a.hints:
                with open(a.hints) as fh:
                    for h in json.load(fh):
                        if hasattr(mod, "hint"):
                            mod.hint(w, h["task"], h["inputs"])
            if not w.failures:
                mod.run(w)
    except common.Stop:
        pass
    except Exception:
        err = traceback.format_exc()
    finally:
        w.cleanup()
    out = {"evaluations": w.count, "distinct": len(w.distinct), "failures": w.failures, "samples": w.samples[:5], "rule": getattr(mod, "RULE", ""),
           "known": w.known, "error": err, "wall_s": time.time() - w.t0}
    print("WITNESS " + json.dumps(out, default=repr))
    if a.replay:
        for f in w.failures:
            print("STILL FAILS:", f["what"])
        sys.exit(1 if w.failures else 0)


main()
